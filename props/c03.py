"""C03 A saved file is a complete, well-formed and faithful safetensors file"""
from .common import *
from sd_mecha.extensions import model_configs
from sim.world import DT

ID = "C03"
BUDGET = {"quick": (4600, 62.0), "thorough": (60000, 800.0)}
RULE = ("each case merges a random recipe to a file: tensor views, all dtypes, odd key names, results larger than announced, tiny and huge "
        "buffers, any schedule; the file is read by an independent parser, the safetensors library and sd_mecha. Non-trivial: at least two "
        "tensors stored")
PROBES = ["views", "recipe-embedded", "structural", "header-grew", "remerged", "empty-result"]


def gen(rng, tier, i):
    structural = rng.random() < 0.18
    o = world.GenOpts(depth=rng.choice([1, 1, 2]), output="file", views=rng.random() < 0.35, structural=structural,
                      output_dtypes=["float16", "float32", "float64", "bfloat16", None, "float8_e4m3fn", "int32", "uint8", "bool", "int64"])
    if structural:
        o.methods = ["sim_lin", "sim_sd", "sim_sum", "sim_id", "sim_typed"]
        o.missing_p, o.litr_p, o.max_dicts = 0.05, 0.0, 0
        o.cfg_kw = {"odd": False, "alias_p": 0.0, "ema": False}
        o.file_kw = {"extra_p": 0.0}
        o.extra_p = 0.0
    if rng.random() < 0.4:
        o.merge_dtypes = [None]
        o.output_dtypes = [None, None, "float32"]
        o.in_dtypes = [rng.choice(list(world.DT))]
        o.methods = ["sim_id", "sim_skip", "fallback", "sim_view"] + (["pick"] if not structural else [])
    p = world.gen_world(rng, o)
    if structural:
        p["structural"] = True
    if o.merge_dtypes == [None]:
        p["opts"]["merge_device"] = p["opts"]["output_device"] = None
    p["opts"]["check_finite"] = p["opts"]["check_finite"] and (o.in_dtypes or ["F32"])[0] in world.FLOATS and \
        (p["opts"]["output_dtype"] in (None, "float16", "float32", "float64", "bfloat16"))
    p["sched"] = world.gen_sched(rng)
    p["salt"] = rng.choice([0, rng.randrange(1, 1 << 16)])
    return p


def truth(plan, b):
    if not plan.get("structural"):
        return world.Ref(plan).result(), None
    res = in_fork(lambda: _dict_truth(b))
    return (dec(res[1]), None) if res[0] == "ok" else (None, res)


def _dict_truth(b):
    r, e, out = do_merge(b, output=world.RecDict(), threads=0, buffer=1 << 20)
    if e is not None:
        raise e
    return enc(out)


def execute(plan, run):
    b = setup(plan, run)
    if not plan.get("structural"):
        model_configs.register_aux(b.cfg)
    else:
        model_configs.get_all = lambda: []        # nothing to infer: the recipe's own structure is its config
        run.stat("structural")
    want, why = truth(plan, b)
    if want is None:
        run.nontrivial = False
        run.stat("no-truth:" + why[2][-200:])
        return
    run.phase = "merge"
    text = None
    if not plan.get("structural"):
        try:
            text = sd_mecha.serialize(b.recipe)
        except TypeError:
            pass
    run.begin()
    r, e, out = do_merge(b)
    run.end()
    run.nontrivial = len(want) >= 2
    if any(n.get("m") == "sim_view" for n in plan["nodes"]):
        run.stat("views")
    if not want:
        run.stat("empty-result")
    if e is not None:
        run.violate("unexpected-exception", exc_text(e))
        return
    data = fs._open(out, "rb").read()
    if not check_readers(run, out, want, kind="wrong-file"):
        return
    meta, tensors, hsize = world.parse_file(data)
    if hsize > 0 and list(tensors) != list(want):
        run.stat("order-differs")
    if ("out", "truncate") in fs.W.ops:
        run.stat("header-grew")
    emb = meta.get("mecha_recipe")
    if plan.get("structural") or text is not None:
        if emb is None:
            if plan.get("structural") and any(n["t"] == "dict" for n in plan["nodes"]):
                return
            run.violate("no-recipe", "the recipe can be serialised but the file does not hold it")
            return
        run.stat("recipe-embedded")
        if text is not None and emb != text:
            run.violate("wrong-recipe", f"embedded {emb!r}\nexpected {text!r}")
            return
    if emb is None or any(n["t"] in ("litd", "litr", "dict") for n in plan["nodes"]):
        return
    try:
        node = sd_mecha.deserialize(emb)
    except Exception as ex:
        run.violate("unloadable-recipe", f"{exc_text(ex)[-300:]}\n{emb}")
        return
    r2, e2, out2 = do_merge(b, recipe=node, output=world.RecDict(), threads=0)
    if e2 is not None:
        run.violate("recipe-fails", exc_text(e2))
        return
    d = world.diff(out2, want)
    if d:
        run.violate("recipe-differs", "; ".join(d[:4]))
    run.stat("remerged")
