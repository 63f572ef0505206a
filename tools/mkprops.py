"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, pathlib
M="sd_mecha/merging.py"; S="sd_mecha/streaming.py"; R="sd_mecha/recipe_nodes.py"; Z="sd_mecha/serialization.py"
C="sd_mecha/extensions/model_configs.py"; MM="sd_mecha/extensions/merge_methods.py"; B="sd_mecha/extensions/builtin/merge_methods/__init__.py"
SVD="sd_mecha/extensions/builtin/merge_methods/svd.py"; CONV="sd_mecha/conversion.py"; W="sd_mecha/merge_method_wrappers.py"
LY="sd_mecha/extensions/builtin/lycoris.py"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=list(files),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Thread scheduling never changes a merge's result",
 "For a recipe built from deterministic merge methods, every merge over the same readable inputs completes and yields the same keys with the same tensors, whatever the number of worker threads and however they interleave, for in-memory and file outputs alike. That result is the one obtained by evaluating the recipe for each key on its own, without any concurrency.",
 ["schedules","inputs","configurations"],"all interleavings of 0..N workers, all recipes over deterministic methods, dict and file outputs",
 "Tests run recipes with threads=0 or call the bare functions; no test runs two workers at once, so no interleaving is ever sampled.",
 [M,S,R],[("one task per key submitted to a thread pool",M+":merge"),("per-file read lock",S+":InSafetensorsDict"),("per-thread output buffers and flush lock",S+":OutSafetensorsDict")],
 [("thread states","pending bytes and header entries per worker",S+":OutSafetensorsDict.thread_states"),("read buffer","current window of an input file",S+":InSafetensorsDict.buffer")],
 ["returned mapping","output file"])
p("C02","Buffer sizes and partial transfers never change a merge's result",
 "A merge's result does not depend on the buffer budget (zero and tiny budgets included), on how many operands or workers share one model file, on the layout of that file, nor on how the operating system splits reads and writes into partial transfers. A tensor already handed out keeps its value while later reads refill the buffers.",
 ["schedules","configurations","inputs","fault_sequences"],"all buffer budgets, file layouts, sharing patterns and legal short reads/writes",
 "No test reads or writes through the streaming layer with a chosen buffer size, and the OS never returns short transfers in a test run.",
 [S,M],[("buffer refill into a fresh buffer",S+":InSafetensorsDict._ensure_buffer"),("flush when the next tensor does not fit",S+":OutSafetensorsDict.__setitem__")],
 [("buffer window","file offset range currently buffered",S+":InSafetensorsDict.buffer_start_offset")],["returned mapping","output file"])
p("C03","A saved file is a complete, well-formed and faithful safetensors file",
 "When a merge to a file returns, the file is accepted by the reference safetensors reader, lists every merged key exactly once with byte ranges that tile the data section without gap or overlap, and every tensor in it has the dtype, shape and values of the in-memory result, whatever its memory layout was. Its metadata holds the serialised text of the merged recipe whenever that recipe can be serialised.",
 ["schedules","inputs","configurations"],"all interleavings of flushes, dtypes, shapes, tensor layouts, header sizes and buffer sizes",
 "No test writes an output file at all.",
 [S,M,Z],[("header reservation, flush and final header write",S+":OutSafetensorsDict"),("raw tensor bytes",S+":tensor_to_bytes"),("recipe embedding",M+":_get_output_dict")],
 [("flushed size","bytes of data section written so far",S+":OutSafetensorsDict.flushed_size"),("header","entries of flushed tensors",S+":OutSafetensorsDict.header")],["output file bytes"])
p("C04","Reading a model file yields the stored tensor exactly, or an error",
 "Every tensor read from a model file, from any number of threads and in any order, has exactly the dtype, shape and bytes stored for that key, or the read raises. Short transfers, read errors, truncated files, a concurrent close and earlier failed reads never make a read return zeros, stale bytes or another key's bytes.",
 ["schedules","fault_sequences","histories"],"all interleavings of readers, all read histories and all sequences of read faults",
 "Tests read one tiny intact file sequentially; no read ever fails or comes back short.",
 [S],[("windowed reads under a lock",S+":InSafetensorsDict._ensure_buffer"),("view construction",S+":InSafetensorsDict._load_tensor")],
 [("buffer window","file offset range currently buffered",S+":InSafetensorsDict.buffer")],["tensors returned by the input mapping"])
p("C05","A merge that returns normally has saved every output byte",
 "If a merge to a file returns without raising, the file holds the complete correct result, even when writes were short, failed once, the disk filled up, the buffer could not be grown or closing the file failed. In every such case in which the result could not be saved completely, the merge raises.",
 ["fault_sequences","schedules"],"all sequences of output faults at any write, seek, resize or close, under all interleavings",
 "No test writes an output file, let alone to a failing or full disk.",
 [S,M],[("flush and close",S+":OutSafetensorsDict._flush_buffer"),("error propagation from workers",M+":merge")],
 [("flushed size","bytes believed written",S+":OutSafetensorsDict.flushed_size")],["return/raise of merge","output file bytes"])
p("C06","A killed merge never leaves a plausible but wrong file",
 "If the process dies at any instant of a merge to a file, what is then found at the output path is what was there before the merge started, or something that no safetensors reader (this library's included) accepts, or the complete correct result. Running the same merge again over the leftovers yields the correct result.",
 ["crash_points","schedules"],"all crash points (including inside a partially completed write) under all interleavings of flushes",
 "Tests never stop a merge in the middle.",
 [S],[("header region left blank until every tensor is flushed",S+":OutSafetensorsDict.close"),("data section moved before the header is written",S+":OutSafetensorsDict.close")],
 [("header length word","zero until the header is written",S+":OutSafetensorsDict.close")],["output file bytes after a kill"])
p("C07","A failing merge reports the cause and leaves no wrong tensor behind",
 "When a merge fails because an input cannot be read, a merge method raises, the output cannot be stored, memory cannot be allocated or the user interrupts it, the exception that reaches the caller is that failure or carries it in its chain. Whatever file or mapping was being filled then either is rejected by readers or holds only tensors equal to those the successful merge would have stored.",
 ["fault_sequences","schedules"],"all faults at any operation while other workers are anywhere in their work",
 "Tests have no failing merge, and none with workers in flight at the time of the failure.",
 [M,S],[("first failing future cancels the rest and is re-raised",M+":merge"),("output closed while unwinding",M+":_get_output_dict")],
 [("thread states","entries and bytes pending at the time of failure",S+":OutSafetensorsDict.thread_states")],["exception chain","leftover file or mapping"])
p("C08","Every merge terminates and releases everything it acquired",
 "Whatever fails or is interrupted and however threads interleave, a merge finishes in a bounded number of steps: it never deadlocks or hangs. When it has returned or raised, none of its worker threads is alive, every file it opened is closed, and the recipe no longer holds open inputs; the same holds for the helpers that open inputs and convert recipes.",
 ["schedules","fault_sequences"],"all interleavings and all single or repeated faults",
 "Termination and cleanup on failing paths need failures at arbitrary points with workers in flight; tests have neither.",
 [M,S,CONV],[("context managers around inputs, executor and output",M+":merge"),("closing visitor",M+":CloseInputDictsVisitor")],
 [("open files","descriptors of inputs and output",S),("loaded inputs on recipe nodes","handle kept by a model node while merging",R+":ModelRecipeNode.state_dict")],["open descriptors","live threads","recipe nodes"])
p("C09","What ran earlier in the process never changes a merge's result",
 "The result of a merge depends only on its recipe, options and input files: it is the same after any history of earlier merges, conversions and openings in the same process, successful or failed, including ones that shared recipe nodes, files or model configs with it. In particular, retrying a merge after a transient failure gives the result of a first try.",
 ["histories","fault_sequences","schedules"],"all sequences of library operations, with and without faults, before the merge",
 "Each test performs one merge with default options; no test checks a second merge or a retry.",
 [M,R,C],[("inputs opened and closed per merge",M+":open_input_dicts"),("config caches",C+":ModelConfigImpl")],
 [("config metadata cache","keys and shapes of a registered config",C+":ModelConfigImpl._metadata_cache"),("config recorded on recipe nodes","inferred config of a node",R+":ModelRecipeNode.model_config")],["result of later merges"])
p("C10","Merging never modifies its inputs",
 "Merging changes neither the model files nor the in-memory tensors, dictionaries and parameter values that its recipe refers to, nor the registered model configs, for every merge method, every choice of dtypes and devices, every schedule and every failure. This includes options under which no copy of an input needs to be made, and a merge that is to be saved over one of its own inputs is refused before anything is written.",
 ["inputs","schedules","configurations","fault_sequences"],"all built-in methods, dtype settings, schedules and faults",
 "Tests compare returned values only; none looks at the inputs again afterwards, and casting usually hides sharing.",
 [B,M,S],[("out-of-place arithmetic in merge methods",B),("casts return the same tensor when the dtype already matches",B+":cast")],
 [("input tensors","tensors owned by the caller","recipe literals")],["input tensors, dicts and files after a merge"])
p("C11","A failure is never mistaken for a missing key",
 "A key is left out of a merge's result, or replaced by its fallback, only when it is genuinely absent from the operand concerned. When reading or computing an operand that a key needs fails for any other reason, the merge raises instead of skipping or substituting a key that it would have produced otherwise.",
 ["fault_sequences","inputs","schedules"],"all read/compute faults on any operand, combined with genuinely missing keys anywhere in the recipe",
 "No test makes an operand fail while a fallback or a skip is available.",
 [M,B,S],[("dedicated missing-key error",S+":StateDictKeyError"),("skip on missing key",M+":_track_output"),("fallback on missing key",B+":fallback"),("operand errors held until all operands were tried",M+":ErrorHolder")],
 [],["keys and values of the result","raised exception"])
p("C12","Each output key is computed, stored and counted exactly once",
 "In a successful merge the recipe's top-level operation is evaluated exactly once per output key, its result is stored exactly once under that key, and the progress reporter is advanced exactly once per key of the announced total. In a failing or interrupted merge none of these happens more than once per key.",
 ["schedules","fault_sequences","configurations"],"all interleavings, thread counts and faults",
 "Tests do not observe how often methods run or outputs are stored, and never with workers.",
 [M],[("one task per key",M+":merge"),("output and progress tracking",M+":_track_output")],
 [("futures","one per output key",M+":merge")],["calls seen by a merge method","stores seen by an output mapping","progress reporter"])
p("C13","Memory held while streaming does not grow with the number of keys",
 "While merging to a file, tensor data computed but not yet written stays within the buffer budget plus a fixed number of tensors per worker, and finished results are not retained, however many keys are merged and however workers interleave. Each input file is read through a window no larger than its share of the budget or the tensor being read.",
 ["schedules","inputs","configurations"],"all schedules, key counts and buffer budgets",
 "No test looks at buffered or live data during a merge.",
 [S,M],[("flush when full",S+":OutSafetensorsDict.__setitem__"),("results stored and dropped by the worker",M+":_track_output"),("windowed reads",S+":InSafetensorsDict._ensure_buffer")],
 [("thread buffer","bytes waiting to be flushed",S+":OutSafetensorsDictThreadState")],["bytes stored minus bytes written","live result tensors","size of reads"])
p("C14","Seeded random merges are reproducible",
 "A merge method that takes a seed yields the same tensors for the same seed and inputs in every merge, whatever the schedule, the number of threads, the buffer sizes and the random numbers drawn elsewhere in the process. It leaves the process-wide random generators as it found them.",
 ["schedules","histories","inputs"],"all schedules and all global generator states",
 "No test runs a seeded method twice, nor with workers sharing a generator.",
 [B,W],[("per-call generators",B+":dropout"),("per-call generators",B+":ties_sum_with_dropout")],
 [("global generators","torch and numpy default generators","process")],["merge result","global generator state"])
p("C15","A cache shared between keys, workers and merges never changes results",
 "A cache dictionary attached to a recipe node is handed to that node's merge method for every key, unchanged and by all workers. A rotation merge that reuses such a cache, filled by any earlier or concurrent evaluation of the same operation on the same models with the same alignment, gives the result of an uncached merge up to the precision of the cached values, and a failed merge never leaves a cache that breaks later ones.",
 ["schedules","histories","fault_sequences"],"all interleavings of workers filling a cache, all sequences of merges reusing it, faults while filling",
 "No test attaches a cache or runs the rotation method through a merge.",
 [B,SVD,R,MM],[("per-key cache entries",B+":rotate"),("cached eigen decomposition",SVD+":fractional_matrix_power"),("cache passed to merge methods",MM+":MergeMethod")],
 [("cache","per-key rotation and eigen decomposition",B+":rotate")],["merge results with cold and warm caches"])
p("C16","Merges running at the same time in one process do not interfere",
 "When several caller threads merge, convert, serialise recipes or describe model configs at the same time with recipes of their own (possibly over the same files and model configs), each gets exactly the outcome it would get alone. A failure in one does not affect the others.",
 ["schedules","histories","fault_sequences"],"all interleavings of several concurrent callers",
 "No test calls the library from more than one thread.",
 [M,C,S,MM],[("state kept per call",M+":merge"),("registries read-only after import",C),("yaml dumper customised during a call",C+":to_yaml")],
 [("yaml representers","process-wide dumper settings",C+":to_yaml"),("config caches","lazily filled",C)],["result of each caller"])
p("C17","Saving a recipe is all-or-nothing",
 "After an attempt to save a recipe to a file that was killed, ran out of disk space or failed at any instant, loading that path gives the recipe that was there before, the complete new recipe, or an error, never a different recipe. When saving returns normally the file holds exactly the serialised text, and saving again over whatever was left behind works.",
 ["crash_points","fault_sequences"],"all crash points and write faults during saving, over recipes of every shape",
 "Tests never save a recipe, and a torn file needs a crash or a full disk in the middle of a write.",
 [Z],[("recipe text written to its path",Z+":serialize"),("version line and line-by-line parsing",Z+":deserialize")],
 [("recipe file","instructions, one per line",Z)],["recipe loaded after a crash or fault"])
p("C18","Model configs load correctly on first use, from any thread, despite faults",
 "A model config described by a file or derived from another config shows the same identifier, components, keys, shapes and aliases to every caller, whichever threads touch it first and at whatever points they interleave. If loading it fails, that access raises and a later access loads it completely; no caller ever sees an empty or partial config.",
 ["schedules","fault_sequences"],"all interleavings of first accesses and all read faults while loading",
 "Tests load each config once, from one thread, from an intact file.",
 [C,LY],[("delegation to a config created on first use",C+":LazyModelConfigBase"),("derived configs",LY+":LycorisModelConfig")],
 [("underlying config","parsed config, absent until first use",C+":LazyModelConfigBase.underlying_config")],["config accessors"])
p("C19","A merge leaves process-wide state as it found it",
 "Whatever happens during a merge, and however its workers interleave with each other and with other callers, once it has returned or raised the state the whole process shares is as it was: warning filters, torch defaults (dtype, device, thread count, grad mode), environment, working directory, logging configuration and registered model configs, and also the global random generators unless an unseeded random method was part of the recipe.",
 ["schedules","fault_sequences","configurations"],"all interleavings, thread counts and failures",
 "Tests do not look at process-wide state, and the damage needs two workers saving and restoring it in an overlapping order.",
 [M,S,B],[("tensors built from buffers without touching warning filters",S+":InSafetensorsDict._load_tensor"),("thread contexts",M+":_wrap_thread_context")],
 [("warning filters","process-wide list","process"),("torch defaults","dtype, device, threads, grad mode","process")],["process-wide state before and after a merge"])
p("C20","A merge that cannot start leaves its output as it was",
 "A merge that cannot start raises, and the file at the output path or the mapping given as output is exactly as before and no file has been created. This holds when the recipe is not in weight space or mixes model configs, when a model file is missing, has a damaged header, or cannot be opened or read while the inputs are being opened, when mandatory keys are required and missing, when the thread count is invalid, when the output is one of the inputs, and when memory runs out or the user interrupts before all inputs are open.",
 ["fault_sequences","inputs"],"all reasons for which a merge is refused, at every point until its inputs are open, over absent and existing outputs",
 "No test writes over an existing output, and none lets opening the inputs fail at a chosen point.",
 [M,S],[("inputs are opened and checked before the output",M+":merge"),("refusal to write over an input",M+":CheckOutputIsNotInputVisitor"),("mandatory keys",M+":check_model_config")],
 [("existing output","older model at the output path",M+":_get_output_dict")],["output path and output mapping after the refusal"])
p("C21","A merge reports exactly the non-finite and unrecognised keys",
 "With the finiteness check on, a successful merge logs exactly one warning for each output key whose stored tensor holds NaN or infinite values and none for any other key; with it off it logs none. Unless extra keys are kept, it also logs, for every model whose state dict has keys that its config does not know, a warning naming them, and none for keys that the config knows. All this holds whatever the schedule, for merges running at the same time, and again every time a merge is repeated.",
 ["schedules","inputs","histories"],"all interleavings, all placements of non-finite values and extra keys, repeated and concurrent merges",
 "No test looks at what is logged, and none merges non-finite values with several workers.",
 [M],[("check of each result before it is stored",M+":_track_output"),("extra keys of opened state dicts",M+":check_model_config")],
 [("log records","warnings of the sd_mecha loggers","process")],["log records of a merge"])
# not simulation targets
def n(id,title,statement,over,qt,why,files,mech): p(id,title,statement,over,qt,why,files,mech)
n("P01","A recipe survives its text form",
 "Loading the serialised text of a recipe gives a recipe equivalent to the original: same methods, parameters, models, configs and merge spaces.",
 ["programs","inputs"],"all recipes and all literal values","No test serialises a recipe.",[Z],[("serialiser and parser",Z)])
n("P02","Conversions compose into a shortest valid chain to the requested config",
 "Converting a recipe finds a chain of registered conversions from its config to the requested one whenever such a chain exists, uses a shortest one, and raises otherwise.",
 ["programs","inputs"],"all conversion graphs and configs","No test converts anything.",[CONV],[("shortest path search",CONV+":dijkstra")])
n("P03","Merge spaces and model configs of operands are enforced",
 "A recipe whose operands' merge spaces or model configs do not fit a merge method's declaration is rejected, and an accepted one has the merge space and config its method declares.",
 ["programs"],"all recipes over all methods","Tests build a handful of recipes.",[MM,R],[("merge space and config resolution",MM+":MergeMethod")])
n("P04","The model config of a state dict is inferred correctly",
 "A state dict whose keys match exactly one known model config is recognised as that config; one that matches none is treated by its own structure.",
 ["inputs"],"all sets of keys","Tests use one config.",[M],[("affinity of key sets",M+":infer_model_configs")])
n("P05","Built-in merge methods compute their published formulas",
 "Each built-in merge method returns the tensor its formula defines for all operand values, shapes and hyperparameters.",
 ["inputs"],"all tensors and hyperparameters","Tests check three methods on one input each.",[B,SVD],[("formulas",B)])
n("P06","Converters map every key to the right source tensors",
 "For every key of a target config, the built-in converters and adapters (LoRA included) combine exactly the source tensors that define it.",
 ["inputs"],"all keys of all configs","No test converts anything.",["sd_mecha/extensions/builtin/model_configs",LY],[("key renaming rules","sd_mecha/extensions/builtin/model_configs")])
n("P07","Literals are broadcast and coerced as declared",
 "A literal, a per-key dictionary or a path given for a parameter reaches the merge method as a value of the declared type for every key it applies to, and incompatible values are rejected.",
 ["inputs","programs"],"all literals and parameter types","Tests cover seventeen fixed cases.",[MM,M],[("implicit conversion",MM+":value_to_node"),("casts",M+":cast_node_value")])
out=pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
out.write_text("".join(json.dumps(q)+"\n" for q in P))
