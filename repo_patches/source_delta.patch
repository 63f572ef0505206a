From 5ae3d5fc64f7db298c31484151639d2e66bddb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:07 +0000
Subject: [PATCH 01/30] fix: save the values of views and non-contiguous
 tensors, not their storage

---
 sd_mecha/streaming.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 100c2f7..bb10b05 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -335,8 +335,9 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
 # src: https://github.com/huggingface/safetensors/blob/aa4ad823cf71d913f283b70332d37ab45803949d/bindings/python/py_src/safetensors/torch.py#L405
 # this function is Apache 2.0: https://github.com/huggingface/safetensors/blob/main/LICENSE
 def tensor_to_bytes(tensor: torch.Tensor) -> bytes:
-    # assume tensor is not spare nor contiguous and on the cpu
-    total_bytes = len(tensor.untyped_storage())
+    # assume tensor is not sparse and on the cpu
+    tensor = tensor.contiguous()  # the storage of a view can be laid out differently or be larger than the view
+    total_bytes = tensor.numel() * tensor.element_size()
 
     ptr = tensor.data_ptr()
     if ptr == 0:
-- 
2.43.0


From 2fd93ac9c94890413f0fb3aaee296fde0da503ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:07 +0000
Subject: [PATCH 02/30] fix: make room for the header of an output file even
 without a buffer

---
 sd_mecha/streaming.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index bb10b05..2c5dbca 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -312,8 +312,9 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
                 self.file = open(self.file_path, "rb+")
 
                 # move data in chunks from the end to avoid overwriting
-                for chunk_end in tqdm(range(old_file_end, old_data_section, -self.minimum_buffer_size), desc="Reallocating data section"):
-                    chunk_start = max(chunk_end - self.minimum_buffer_size, old_data_section)
+                move_size = self.minimum_buffer_size or 2**20
+                for chunk_end in tqdm(range(old_file_end, old_data_section, -move_size), desc="Reallocating data section"):
+                    chunk_start = max(chunk_end - move_size, old_data_section)
                     chunk_size = chunk_end - chunk_start
                     self.file.seek(chunk_start)
                     data = self.file.read(chunk_size)
-- 
2.43.0


From 4b7e46e6f2fc92c50c9f3c129efa665a36040735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:07 +0000
Subject: [PATCH 03/30] fix: write output buffers completely when the system
 writes them partially

---
 sd_mecha/streaming.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 2c5dbca..a32dc84 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -263,7 +263,9 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
             lock = contextlib.nullcontext()
 
         with lock:
-            self.file.write(state.buffer[:state.memory_used])
+            # an earlier write that failed midway can have moved the file position
+            self.file.seek(8 + self.max_header_size + self.flushed_size)
+            self._write_all(state.buffer[:state.memory_used])
             buffer_offset = self.flushed_size
             self.flushed_size += state.memory_used
             state.memory_used = 0
@@ -327,11 +329,17 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
                 overhead = 0
 
             self.file.seek(0)
-            self.file.write(struct.pack('<Q', max(self.max_header_size, header_size)))
-            self.file.write(header_json)
-            self.file.write(b' ' * overhead)
+            self._write_all(struct.pack('<Q', max(self.max_header_size, header_size)))
+            self._write_all(header_json)
+            self._write_all(b' ' * overhead)
             self.file.close()
 
+    def _write_all(self, data):
+        # unbuffered files can write less than what they are given
+        data = memoryview(data)
+        while len(data) > 0:
+            data = data[self.file.write(data):]
+
 
 # src: https://github.com/huggingface/safetensors/blob/aa4ad823cf71d913f283b70332d37ab45803949d/bindings/python/py_src/safetensors/torch.py#L405
 # this function is Apache 2.0: https://github.com/huggingface/safetensors/blob/main/LICENSE
-- 
2.43.0


From 9963f4fc6af3d093137064a6c0fff15a7afaafe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:11 +0000
Subject: [PATCH 04/30] fix: keep the output header in step with the flushed
 data when growing a buffer fails

---
 sd_mecha/streaming.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index a32dc84..0331287 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -263,12 +263,24 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
             lock = contextlib.nullcontext()
 
         with lock:
+            buffer_offset = self.flushed_size
+            global_sub_header = {
+                k: {
+                    attr: val
+                    if attr != "data_offsets"
+                    else (val[0] + buffer_offset, val[1] + buffer_offset)
+                    for attr, val in v.items()
+                }
+                for k, v in state.sub_header.items()
+            }
             # an earlier write that failed midway can have moved the file position
-            self.file.seek(8 + self.max_header_size + self.flushed_size)
+            self.file.seek(8 + self.max_header_size + buffer_offset)
             self._write_all(state.buffer[:state.memory_used])
-            buffer_offset = self.flushed_size
-            self.flushed_size += state.memory_used
-            state.memory_used = 0
+            # the flushed bytes and their header entries have to leave the thread state together, even if growing the buffer fails
+            self.header.update(global_sub_header)
+            state.sub_header.clear()
+            flushed_size, state.memory_used = state.memory_used, 0
+            self.flushed_size += flushed_size
 
         if next_tensor_size is not None:
             required_buffer_size = max(self.minimum_buffer_size, next_tensor_size)
@@ -277,17 +289,6 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
             else:
                 state.buffer = state.buffer[:required_buffer_size]
 
-        global_sub_header = {
-            k: {
-                attr: val
-                if attr != "data_offsets"
-                else (val[0] + buffer_offset, val[1] + buffer_offset)
-                for attr, val in v.items()
-            }
-            for k, v in state.sub_header.items()
-        }
-        self.header.update(global_sub_header)
-        state.sub_header.clear()
         if close:
             state.buffer = b""
 
-- 
2.43.0


From b007b6903ca3783fe935f0bdf8dcb352e341983c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:11 +0000
Subject: [PATCH 05/30] fix: never serve tensors from a partially read or stale
 input buffer

---
 sd_mecha/streaming.py | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 0331287..155c5b5 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -128,25 +128,44 @@ class InSafetensorsDict(SafetensorsMapping):
             yield key, self[key]
 
     def _read_header(self):
-        header_size_bytes = self.file.read(8)
+        header_size_bytes = self._read_exactly(8)
         header_size = struct.unpack('<Q', header_size_bytes)[0]
-        header_json = self.file.read(header_size).decode('utf-8').strip()
+        header_json = self._read_exactly(header_size).decode('utf-8').strip()
         header = json.loads(header_json)
 
         # sort by memory order to reduce seek time
         sorted_header = OrderedDict(sorted(header.items(), key=lambda item: item[1].get('data_offsets', [0])[0]))
         return header_size, sorted_header
 
+    def _read_exactly(self, size):
+        # unbuffered files can read less than requested
+        chunks = []
+        while size > 0:
+            chunk = self.file.read(size)
+            if not chunk:
+                raise EOFError(f"unexpected end of file in {self.file_path}")
+            chunks.append(chunk)
+            size -= len(chunk)
+        return b"".join(chunks)
+
     def _ensure_buffer(self, start_pos, length):
         if start_pos < self.buffer_start_offset or start_pos + length > self.buffer_start_offset + len(self.buffer):
             self.file.seek(start_pos)
             necessary_buffer_size = max(self.default_buffer_size, length)
-            if len(self.buffer) < necessary_buffer_size:
-                self.buffer = bytearray(necessary_buffer_size)
-            else:
-                self.buffer = self.buffer[:necessary_buffer_size]
-
-            self.file.readinto(self.buffer)
+            # drop the old buffer first: if anything fails below, its content must not be mistaken for the new one
+            self.buffer = bytearray()
+            buffer = bytearray(necessary_buffer_size)
+            view = memoryview(buffer)
+            bytes_read = 0
+            # unbuffered files can read less than requested
+            while bytes_read < length:
+                n = self.file.readinto(view[bytes_read:])
+                if not n:
+                    raise EOFError(f"unexpected end of file in {self.file_path}")
+                bytes_read += n
+
+            # the rest of the buffer was not read: it must not be used to serve other tensors
+            self.buffer = buffer if bytes_read == necessary_buffer_size else buffer[:bytes_read]
             self.buffer_start_offset = start_pos
 
     def _load_tensor(self, tensor_name):
-- 
2.43.0


From 097411451cb52cb98cdee35eccb1fb6d929214f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:11 +0000
Subject: [PATCH 06/30] fix: stop all workers before closing the output of a
 failed or interrupted merge

---
 sd_mecha/merging.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index e48c15c..2ad52ae 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -170,7 +170,6 @@ def merge(
         buffer_size_per_file_per_thread = buffer_size_per_file // max(1, threads)
 
         with (
-            executor,
             tqdm(total=len(recipe_metadata), desc="Merging recipe") as progress,
             _get_output_dict(
                 output,
@@ -179,22 +178,25 @@ def merge(
                 model_dirs,
                 buffer_size_per_file_per_thread,
             ) as output_dict,
+            executor,  # innermost: all workers have to be done before the output is closed
         ):
             fix_torch_threading()
             futures = []
-            for key in recipe_metadata:
-                fn = recipe.accept
-                fn = _track_output(fn, output_dict, key, check_finite)
-                fn = _track_progress(fn, key, recipe_metadata[key].shape, progress)
-                fn = _wrap_thread_context(fn, thread_local_data)
-                futures.append(executor.submit(fn, KeyMergeVisitor(key)))
-
-            for future in as_completed(futures):
-                if future.exception() is not None:
-                    for future_to_cancel in futures:
-                        future_to_cancel.cancel()
-                    raise future.exception()
-                future.result()
+            try:
+                for key in recipe_metadata:
+                    fn = recipe.accept
+                    fn = _track_output(fn, output_dict, key, check_finite)
+                    fn = _track_progress(fn, key, recipe_metadata[key].shape, progress)
+                    fn = _wrap_thread_context(fn, thread_local_data)
+                    futures.append(executor.submit(fn, KeyMergeVisitor(key)))
+
+                for future in as_completed(futures):
+                    future.result()
+            except BaseException:
+                # also when interrupted: the remaining keys must not be merged
+                for future_to_cancel in futures:
+                    future_to_cancel.cancel()
+                raise
 
             if isinstance(output_dict, MutableMapping):
                 return output_dict
-- 
2.43.0


From ccc8d8c46da6e4f8b4d2ffca535c5dc6330ed9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:11 +0000
Subject: [PATCH 07/30] fix: do not remove ema keys from the model config
 itself when omitting them from a merge

---
 sd_mecha/merging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 2ad52ae..dbb947a 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -158,7 +158,7 @@ def merge(
         if strict_weight_space and recipe.merge_space != "weight":
             raise ValueError(f"recipe should be in 'weight' space, not '{recipe.merge_space.identifier}'")
 
-        recipe_metadata = recipe.model_config.metadata()
+        recipe_metadata = OrderedDict(recipe.model_config.metadata())
         if not omit_extra_keys:
             recipe, recipe_metadata = copy_extra_keys(recipe)
 
-- 
2.43.0


From 2ac114bea2be142e325c2fc5c4b9c5521618694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 08/30] fix: declare the operands of rotate as the state dicts
 that it indexes

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index aae7a68..108f107 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -381,8 +381,8 @@ def create_filter(shape: Tuple[int, ...] | torch.Size, alpha: float, tilt: float
 
 @merge_method
 def rotate(
-    a_dict: Parameter(Tensor),
-    b_dict: Parameter(Tensor),
+    a_dict: Parameter(StateDict[Tensor]),
+    b_dict: Parameter(StateDict[Tensor]),
     alignment: Parameter(float) = 1.0,
     alpha: Parameter(Tensor) = 0.0,
     **kwargs,
-- 
2.43.0


From 3c8788b1975223a441a573bb2c19168eef625b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 09/30] fix: do not write into the input tensors of merge
 methods

---
 .../extensions/builtin/merge_methods/__init__.py  | 15 ++++++++-------
 sd_mecha/extensions/builtin/merge_methods/svd.py  |  2 +-
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 108f107..c3e1574 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -153,11 +153,12 @@ def tensor_sum(
 
     start_i, end_i, region_is_inverted = ratio_to_region(width, offset, a.size(0))
     if region_is_inverted:
-        b[start_i:end_i] = a[start_i:end_i]
-        return b
+        res = b.clone()
+        res[start_i:end_i] = a[start_i:end_i]
     else:
-        a[start_i:end_i] = b[start_i:end_i]
-        return a
+        res = a.clone()
+        res[start_i:end_i] = b[start_i:end_i]
+    return res
 
 
 @merge_method
@@ -288,7 +289,7 @@ def multiply_quotient(
     c = torch.complex(c, torch.zeros_like(c))
 
     threshold = torch.maximum(torch.abs(ac_log), torch.abs(bc_log))
-    alpha *= torch.clamp(-torch.nan_to_num(ac_log * bc_log / threshold**2, nan=0), 0)
+    alpha = alpha * torch.clamp(-torch.nan_to_num(ac_log * bc_log / threshold**2, nan=0), 0)
 
     res = a * (b / c)**alpha
     res = torch.where(torch.isnan(res), a, res)
@@ -409,8 +410,8 @@ def rotate(
     b_neurons = b.reshape(*shape_2d)
     a_centroid = a_neurons.mean(0)
     b_centroid = b_neurons.mean(0)
-    a_neurons -= a_centroid
-    b_neurons -= b_centroid
+    a_neurons = a_neurons - a_centroid
+    b_neurons = b_neurons - b_centroid
 
     cache = kwargs.get("cache")
     if cache is not None:
diff --git a/sd_mecha/extensions/builtin/merge_methods/svd.py b/sd_mecha/extensions/builtin/merge_methods/svd.py
index a88a218..8c0bd53 100644
--- a/sd_mecha/extensions/builtin/merge_methods/svd.py
+++ b/sd_mecha/extensions/builtin/merge_methods/svd.py
@@ -34,7 +34,7 @@ def fractional_matrix_power(matrix: Tensor, power: float, cache: Optional[Dict[s
             cache["eigenvectors"] = eigenvectors.to("cpu", torch.complex32)
             cache["eigenvectors_inv"] = eigenvectors_inv.to("cpu", torch.complex32)
 
-    eigenvalues.pow_(power)
+    eigenvalues = eigenvalues.pow(power)  # not in place: this can be the cached tensor
     result = eigenvectors @ torch.diag(eigenvalues) @ eigenvectors_inv
     return result.real.to(dtype=matrix.dtype)
 
-- 
2.43.0


From da84821c561d6dbb2a23c08adc904d293be15d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 10/30] fix: never leave a partial eigendecomposition in the
 cache of rotate

---
 sd_mecha/extensions/builtin/merge_methods/svd.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/svd.py b/sd_mecha/extensions/builtin/merge_methods/svd.py
index 8c0bd53..3fe31aa 100644
--- a/sd_mecha/extensions/builtin/merge_methods/svd.py
+++ b/sd_mecha/extensions/builtin/merge_methods/svd.py
@@ -30,9 +30,12 @@ def fractional_matrix_power(matrix: Tensor, power: float, cache: Optional[Dict[s
         eigenvalues, eigenvectors = torch.linalg.eig(matrix)
         eigenvectors_inv = torch.linalg.inv(eigenvectors)
         if cache is not None:
-            cache["eigenvalues"] = eigenvalues.to("cpu", torch.complex32)
-            cache["eigenvectors"] = eigenvectors.to("cpu", torch.complex32)
-            cache["eigenvectors_inv"] = eigenvectors_inv.to("cpu", torch.complex32)
+            # all at once: other users of the cache must not find only some of them
+            cache.update({
+                "eigenvalues": eigenvalues.to("cpu", torch.complex32),
+                "eigenvectors": eigenvectors.to("cpu", torch.complex32),
+                "eigenvectors_inv": eigenvectors_inv.to("cpu", torch.complex32),
+            })
 
     eigenvalues = eigenvalues.pow(power)  # not in place: this can be the cached tensor
     result = eigenvectors @ torch.diag(eigenvalues) @ eigenvectors_inv
-- 
2.43.0


From df8b67cfd94fede14f1c245c89361166ebf1903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 11/30] fix: describe model configs in yaml without changing
 the dumper of the whole process

---
 sd_mecha/extensions/model_configs.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/sd_mecha/extensions/model_configs.py b/sd_mecha/extensions/model_configs.py
index c6b1002..2ae2ab0 100644
--- a/sd_mecha/extensions/model_configs.py
+++ b/sd_mecha/extensions/model_configs.py
@@ -339,7 +339,9 @@ def serialize(obj):
 
 def to_yaml(model_config: ModelConfig) -> str:
     dict_config = serialize(model_config)
-    old_representers = yaml.SafeDumper.yaml_representers.copy()
+
+    class ModelConfigDumper(yaml.SafeDumper):
+        pass
 
     def flow_style_list_representer(dumper, data):
         return dumper.represent_sequence('tag:yaml.org,2002:seq', data, flow_style=True)
@@ -350,13 +352,9 @@ def to_yaml(model_config: ModelConfig) -> str:
         else:
             return dumper.represent_mapping('tag:yaml.org,2002:map', data)
 
-    try:
-        yaml.SafeDumper.add_representer(list, flow_style_list_representer)
-        yaml.SafeDumper.add_representer(dict, flow_style_dict_representer)
-        return yaml.safe_dump(dict_config, width=2**64, sort_keys=False)
-    finally:
-        yaml.SafeDumper.yaml_representers.clear()
-        yaml.SafeDumper.yaml_representers.update(old_representers)
+    ModelConfigDumper.add_representer(list, flow_style_list_representer)
+    ModelConfigDumper.add_representer(dict, flow_style_dict_representer)
+    return yaml.dump(dict_config, Dumper=ModelConfigDumper, width=2**64, sort_keys=False)
 
 
 def from_yaml(yaml_config: str) -> ModelConfig:
-- 
2.43.0


From 28f17ea5f038269228ae1a1b781e9c5c1a85fd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 12/30] fix: do not touch the process-wide warning filters from
 worker threads

---
 sd_mecha/streaming.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 155c5b5..5d9cf1e 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -9,7 +9,6 @@ import sys
 import threading
 import numpy
 import torch
-import warnings
 from collections import OrderedDict
 from typing import Optional, Mapping, Iterator, Iterable, Tuple
 from tqdm import tqdm
@@ -178,12 +177,10 @@ class InSafetensorsDict(SafetensorsMapping):
             return torch.tensor([], dtype=dtype).reshape(shape)
 
         absolute_start_pos = 8 + self.header_size + offsets[0]
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
-            with self.lock:
-                self._ensure_buffer(absolute_start_pos, total_bytes)
-                buffer_offset = absolute_start_pos - self.buffer_start_offset
-                return torch.frombuffer(self.buffer, count=total_bytes // dtype_bytes, offset=buffer_offset, dtype=dtype).reshape(shape)
+        with self.lock:
+            self._ensure_buffer(absolute_start_pos, total_bytes)
+            buffer_offset = absolute_start_pos - self.buffer_start_offset
+            return torch.frombuffer(self.buffer, count=total_bytes // dtype_bytes, offset=buffer_offset, dtype=dtype).reshape(shape)
 
 
 class StateDictKeyError(KeyError):
-- 
2.43.0


From f804e9d0367b12772a9354d4b8c46019f8bcbb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 13/30] fix: forget the structural config of a recipe's inputs
 once they are closed

---
 sd_mecha/merging.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index dbb947a..8233aa3 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -352,10 +352,14 @@ def open_input_dicts(
     check_mandatory_keys: bool = False,
     empty_cuda_cache: bool = False,
 ):
+    load_visitor = LoadInputDictsVisitor(list(model_dirs), buffer_size_per_dict, omit_extra_keys, check_mandatory_keys)
     try:
-        recipe.accept(LoadInputDictsVisitor(list(model_dirs), buffer_size_per_dict, omit_extra_keys, check_mandatory_keys))
+        recipe.accept(load_visitor)
         yield recipe
     finally:
+        for node in load_visitor.structural_nodes:
+            # this config describes the inputs of this recipe as they were just opened, nothing else
+            node.model_config = None
         recipe.accept(CloseInputDictsVisitor())
         if empty_cuda_cache:
             gc.collect()
@@ -370,6 +374,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
     check_mandatory_keys: bool
     dicts_cache: MutableMapping[str, Mapping[str, torch.Tensor]] = dataclasses.field(default_factory=dict)
     structural_metadata: MutableMapping[str, KeyMetadata] = dataclasses.field(default_factory=OrderedDict)
+    structural_nodes: List[RecipeNode] = dataclasses.field(default_factory=list)
     param_config: Optional[ModelConfig] = None
 
     def visit_literal(self, node: LiteralRecipeNode):
@@ -385,13 +390,13 @@ class LoadInputDictsVisitor(RecipeVisitor):
             elif k not in metadata:
                 metadata[k] = KeyMetadata(None, None, optional=True)
 
-        node.model_config = self.__determine_model_config(metadata, node.model_config)
+        node.model_config = self.__determine_model_config(metadata, node)
         check_model_config(node.value, node.model_config, self.strip_extra_keys, self.check_mandatory_keys, "<in-memory state dict>")
 
     def visit_model(self, node: recipe_nodes.ModelRecipeNode):
         node.state_dict, node_path = self.__load_dict(node)
         metadata = OrderedDict(node.state_dict.metadata())
-        node.model_config = self.__determine_model_config(metadata, node.model_config)
+        node.model_config = self.__determine_model_config(metadata, node)
         check_model_config(node.state_dict, node.model_config, self.strip_extra_keys, self.check_mandatory_keys, str(node.path))
 
     def visit_merge(self, node: recipe_nodes.MergeRecipeNode):
@@ -429,8 +434,8 @@ class LoadInputDictsVisitor(RecipeVisitor):
 
         return self.dicts_cache[cache_key], path
 
-    def __determine_model_config(self, metadata: MutableMapping[str, KeyMetadata], config_hint: Optional[ModelConfig]) -> ModelConfig:
-        config = config_hint
+    def __determine_model_config(self, metadata: MutableMapping[str, KeyMetadata], node: LiteralRecipeNode | ModelRecipeNode) -> ModelConfig:
+        config = node.model_config
         if config is None or config == model_configs.INFER:
             inferred_model_configs = infer_model_configs(metadata)
             if any(self.param_config in cfgs for cfgs in inferred_model_configs):
@@ -453,6 +458,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
                     ):
                         self.structural_metadata[k] = metadata[k]
             config = StructuralModelConfig(self.structural_metadata)
+            self.structural_nodes.append(node)
 
         return config
 
-- 
2.43.0


From 2814137290acf9d50b680b608cddfab0f72734e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 14/30] fix: give structural model configs of files the same
 key metadata as other configs

---
 sd_mecha/merging.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 8233aa3..3251d3d 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -395,7 +395,10 @@ class LoadInputDictsVisitor(RecipeVisitor):
 
     def visit_model(self, node: recipe_nodes.ModelRecipeNode):
         node.state_dict, node_path = self.__load_dict(node)
-        metadata = OrderedDict(node.state_dict.metadata())
+        metadata = OrderedDict(
+            (k, KeyMetadata(v.shape, v.dtype, optional=True))
+            for k, v in node.state_dict.metadata()
+        )
         node.model_config = self.__determine_model_config(metadata, node)
         check_model_config(node.state_dict, node.model_config, self.strip_extra_keys, self.check_mandatory_keys, str(node.path))
 
-- 
2.43.0


From c1879126e20ad3af90a90370229470d1a6ba65f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 15/30] fix: do not serialize structural model configs, they
 cannot be resolved when loading

---
 sd_mecha/serialization.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 4db8a7f..19aeae9 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -179,14 +179,14 @@ class SerializerVisitor(RecipeVisitor):
         if node.model_config is None:
             return value
         else:
-            config = self.__serialize_value(node.model_config.identifier)
+            config = self.__serialize_model_config(node.model_config)
             merge_space = self.__serialize_value(node.merge_space.identifier)
             line = f"literal {value} model_config={config} merge_space={merge_space}"
             return self.__add_instruction(line)
 
     def visit_model(self, node: ModelRecipeNode) -> str:
         path = self.__serialize_value(str(node.path))
-        config = self.__serialize_value(getattr(node.model_config, "identifier", None))
+        config = self.__serialize_model_config(node.model_config)
         merge_space = self.__serialize_value(node.merge_space.identifier)
         line = f"model {path} model_config={config} merge_space={merge_space}"
         return self.__add_instruction(line)
@@ -203,6 +203,12 @@ class SerializerVisitor(RecipeVisitor):
         line = " ".join(parts)
         return self.__add_instruction(line)
 
+    def __serialize_model_config(self, config) -> str:
+        identifier = getattr(config, "identifier", None)
+        if identifier == "structural":
+            identifier = None  # describes the inputs that are open right now, cannot be resolved when deserializing
+        return self.__serialize_value(identifier)
+
     def __serialize_value(self, value) -> str:
         if isinstance(value, str):
             value = value.replace("\\", "\\\\").replace('"', "\\\"")
-- 
2.43.0


From abf706bc553f3169e4f81a9e4bafba6b065e30dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 16/30] fix: serialize booleans in the form that loading a
 recipe expects

---
 sd_mecha/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 19aeae9..45d6008 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -216,7 +216,7 @@ class SerializerVisitor(RecipeVisitor):
         if isinstance(value, dict):
             dict_line = "dict " + " ".join(f"{k}={self.__serialize_value(v)}" for k, v in value.items())
             return self.__add_instruction(dict_line)
-        if isinstance(value, (int, float)):
+        if isinstance(value, (int, float)) and not isinstance(value, bool):
             return str(value)
         # int or float needs to be handled before this (1.0 == True)
         if isinstance(value, Hashable) and value in REVERSE_CONSTANTS:
-- 
2.43.0


From 6f8285032ceb2cca891f0a22f91423484adfb059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:00 +0000
Subject: [PATCH 17/30] fix: close every file when opening, closing or
 finishing one of them fails

---
 sd_mecha/merging.py   |  18 +++++---
 sd_mecha/streaming.py | 102 ++++++++++++++++++++++++------------------
 2 files changed, 70 insertions(+), 50 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 3251d3d..503867b 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -524,17 +524,21 @@ class CloseInputDictsVisitor(RecipeVisitor):
     def visit_literal(self, node: LiteralRecipeNode):
         if isinstance(node.value, Mapping):
             if not node.value or isinstance(next(iter(node.value.values())), RecipeNode):
-                for v in node.value.values():
-                    v.accept(self)
+                self.__close_all(node.value.values())
 
     def visit_model(self, node: recipe_nodes.ModelRecipeNode):
-        if node.state_dict is not None:
-            node.state_dict.close()
-        node.state_dict = None
+        state_dict, node.state_dict = node.state_dict, None
+        if state_dict is not None:
+            state_dict.close()
 
     def visit_merge(self, node: recipe_nodes.MergeRecipeNode):
-        for model in (*node.args, *node.kwargs.values()):
-            model.accept(self)
+        self.__close_all((*node.args, *node.kwargs.values()))
+
+    def __close_all(self, nodes: Iterable[RecipeNode]):
+        # if closing one of them fails, the others still have to be closed
+        with contextlib.ExitStack() as stack:
+            for node in nodes:
+                stack.callback(node.accept, self)
 
 
 @dataclasses.dataclass
diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 5d9cf1e..92d07f6 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -79,12 +79,17 @@ class InSafetensorsDict(SafetensorsMapping):
             raise ValueError(f"Model type not supported: {file_path} (only safetensors are supported)")
 
         self.default_buffer_size = buffer_size
+        self.buffer = bytearray()
+        self.lock = threading.Lock()
         self.file = open(file_path, mode='rb', buffering=0)
         self.file_path = file_path
-        self.header_size, self.header = self._read_header()
-        self.buffer = bytearray()
+        try:
+            self.header_size, self.header = self._read_header()
+        except BaseException:
+            # the traceback of the exception would keep the file open
+            self.file.close()
+            raise
         self.buffer_start_offset = 8 + self.header_size
-        self.lock = threading.Lock()
 
     def __del__(self):
         self.close()
@@ -218,10 +223,16 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
         self.flushed_size = 0
         self.minimum_buffer_size = minimum_buffer_size
 
-        self.max_header_size = self._init_buffer(header)
+        try:
+            self.max_header_size = self._init_buffer(header)
+        except BaseException:
+            # the traceback of the exception would keep the file open
+            self.file.close()
+            raise
 
     def __del__(self):
-        self.file.close()
+        if getattr(self, "file", None) is not None:
+            self.file.close()
         self.thread_states = None
         self.header = None
 
@@ -310,46 +321,51 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
 
     def close(self):
         with self.lock:
-            for state in self.thread_states.values():
-                self._flush_buffer(state, close=True)
-
-            header_json = json.dumps(self.header, separators=(',', ':')).encode('utf-8')
-            header_size = len(header_json)
-            overhead = self.max_header_size - header_size
-
-            if overhead < 0:
-                # not enough space. we have to move the entire data section by `-overhead`
-                # this should never happen, but it's here just in case as a fallback
-                data_offset = -overhead
-                old_data_section = 8 + self.max_header_size
-                old_file_end = 8 + self.max_header_size + self.flushed_size
-                new_file_end = 8 + header_size + self.flushed_size
-                self.file.truncate(new_file_end)
-
-                # close and reopen the file in read-write mode
+            try:
+                self._write_remaining()
+            finally:
                 self.file.close()
-                self.file = open(self.file_path, "rb+")
-
-                # move data in chunks from the end to avoid overwriting
-                move_size = self.minimum_buffer_size or 2**20
-                for chunk_end in tqdm(range(old_file_end, old_data_section, -move_size), desc="Reallocating data section"):
-                    chunk_start = max(chunk_end - move_size, old_data_section)
-                    chunk_size = chunk_end - chunk_start
-                    self.file.seek(chunk_start)
-                    data = self.file.read(chunk_size)
-
-                    # calculate the new position and write the chunk
-                    self.file.seek(chunk_start + data_offset)
-                    self.file.write(data)
-
-                # we made just enough space for the header
-                overhead = 0
-
-            self.file.seek(0)
-            self._write_all(struct.pack('<Q', max(self.max_header_size, header_size)))
-            self._write_all(header_json)
-            self._write_all(b' ' * overhead)
+
+    def _write_remaining(self):
+        for state in self.thread_states.values():
+            self._flush_buffer(state, close=True)
+
+        header_json = json.dumps(self.header, separators=(',', ':')).encode('utf-8')
+        header_size = len(header_json)
+        overhead = self.max_header_size - header_size
+
+        if overhead < 0:
+            # not enough space. we have to move the entire data section by `-overhead`
+            # this should never happen, but it's here just in case as a fallback
+            data_offset = -overhead
+            old_data_section = 8 + self.max_header_size
+            old_file_end = 8 + self.max_header_size + self.flushed_size
+            new_file_end = 8 + header_size + self.flushed_size
+            self.file.truncate(new_file_end)
+
+            # close and reopen the file in read-write mode
             self.file.close()
+            self.file = open(self.file_path, "rb+")
+
+            # move data in chunks from the end to avoid overwriting
+            move_size = self.minimum_buffer_size or 2**20
+            for chunk_end in tqdm(range(old_file_end, old_data_section, -move_size), desc="Reallocating data section"):
+                chunk_start = max(chunk_end - move_size, old_data_section)
+                chunk_size = chunk_end - chunk_start
+                self.file.seek(chunk_start)
+                data = self.file.read(chunk_size)
+
+                # calculate the new position and write the chunk
+                self.file.seek(chunk_start + data_offset)
+                self.file.write(data)
+
+            # we made just enough space for the header
+            overhead = 0
+
+        self.file.seek(0)
+        self._write_all(struct.pack('<Q', max(self.max_header_size, header_size)))
+        self._write_all(header_json)
+        self._write_all(b' ' * overhead)
 
     def _write_all(self, data):
         # unbuffered files can write less than what they are given
-- 
2.43.0


From 0c009da9fb8525534742919f4ddba9b1deaa2a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 18/30] fix: describe the keys of model components when writing
 a model config as yaml

---
 sd_mecha/extensions/model_configs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/model_configs.py b/sd_mecha/extensions/model_configs.py
index 2ae2ab0..bef0594 100644
--- a/sd_mecha/extensions/model_configs.py
+++ b/sd_mecha/extensions/model_configs.py
@@ -313,7 +313,7 @@ _model_configs_registry_aux: Dict[str, ModelConfig] = {}
 
 def serialize(obj):
     if isinstance(obj, ModelComponent):
-        return serialize(obj.keys)
+        return serialize(obj.keys())
     elif dataclasses.is_dataclass(obj):
         return {
             field.metadata.get("serial_name", field.name): serialize(getattr(obj, field.name))
-- 
2.43.0


From 6bcde880298c3f0f740ea16a0bc129fceb15020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:53 +0000
Subject: [PATCH 19/30] fix: keep aliases and optional flags of keys when
 writing a model config as yaml

---
 sd_mecha/extensions/model_configs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/extensions/model_configs.py b/sd_mecha/extensions/model_configs.py
index bef0594..71bb24a 100644
--- a/sd_mecha/extensions/model_configs.py
+++ b/sd_mecha/extensions/model_configs.py
@@ -22,7 +22,7 @@ StateDictKey = str
 class KeyMetadata:
     shape: Optional[List[int]] | torch.Size
     dtype: Optional[str] | torch.dtype
-    aliases: Iterable[str] = dataclasses.field(default_factory=tuple, metadata={"exclude": lambda p: bool(p)})
+    aliases: Iterable[str] = dataclasses.field(default_factory=tuple, metadata={"exclude": lambda p: not p})
     optional: bool = dataclasses.field(default=False, metadata={"exclude": lambda p: not p})
 
     def __post_init__(self):
@@ -319,8 +319,9 @@ def serialize(obj):
             field.metadata.get("serial_name", field.name): serialize(getattr(obj, field.name))
             for field in dataclasses.fields(obj)
             if not (
-                callable(field.metadata.get("exclude")) and field.metadata["exclude"](getattr(obj, field.name))
-                or field.metadata.get("exclude", False)
+                field.metadata["exclude"](getattr(obj, field.name))
+                if callable(field.metadata.get("exclude"))
+                else field.metadata.get("exclude", False)
             )
         }
     elif isinstance(obj, (str, int, float, type(None))):
-- 
2.43.0


From 89015b35e813e2a37c40b23619102216e530e707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 20/30] fix: forget the inferred config of a recipe's inputs
 once they are closed

---
 sd_mecha/merging.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 503867b..f5c5793 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -357,9 +357,9 @@ def open_input_dicts(
         recipe.accept(load_visitor)
         yield recipe
     finally:
-        for node in load_visitor.structural_nodes:
-            # this config describes the inputs of this recipe as they were just opened, nothing else
-            node.model_config = None
+        for node, model_config in load_visitor.inferred_nodes:
+            # what was inferred describes the inputs of this recipe as they were just opened, nothing else
+            node.model_config = model_config
         recipe.accept(CloseInputDictsVisitor())
         if empty_cuda_cache:
             gc.collect()
@@ -374,7 +374,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
     check_mandatory_keys: bool
     dicts_cache: MutableMapping[str, Mapping[str, torch.Tensor]] = dataclasses.field(default_factory=dict)
     structural_metadata: MutableMapping[str, KeyMetadata] = dataclasses.field(default_factory=OrderedDict)
-    structural_nodes: List[RecipeNode] = dataclasses.field(default_factory=list)
+    inferred_nodes: List[Tuple[RecipeNode, Optional[ModelConfig]]] = dataclasses.field(default_factory=list)
     param_config: Optional[ModelConfig] = None
 
     def visit_literal(self, node: LiteralRecipeNode):
@@ -440,6 +440,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
     def __determine_model_config(self, metadata: MutableMapping[str, KeyMetadata], node: LiteralRecipeNode | ModelRecipeNode) -> ModelConfig:
         config = node.model_config
         if config is None or config == model_configs.INFER:
+            self.inferred_nodes.append((node, config))
             inferred_model_configs = infer_model_configs(metadata)
             if any(self.param_config in cfgs for cfgs in inferred_model_configs):
                 config = self.param_config
@@ -461,7 +462,6 @@ class LoadInputDictsVisitor(RecipeVisitor):
                     ):
                         self.structural_metadata[k] = metadata[k]
             config = StructuralModelConfig(self.structural_metadata)
-            self.structural_nodes.append(node)
 
         return config
 
-- 
2.43.0


From a2458ff84eb84f122b632fc189de2d7ecfc44474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:24 +0000
Subject: [PATCH 21/30] fix: pass the arguments that the dropout methods expect
 from their wrappers

---
 sd_mecha/merge_method_wrappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/merge_method_wrappers.py b/sd_mecha/merge_method_wrappers.py
index 1d2bf39..1e86876 100644
--- a/sd_mecha/merge_method_wrappers.py
+++ b/sd_mecha/merge_method_wrappers.py
@@ -248,7 +248,7 @@ def dropout(
         subtract(model, a)
         for model in models
     ]
-    ba_delta = merge_methods.dropout(*deltas, probability=probability, overlap=overlap, overlap_skew=overlap_emphasis, seed=seed)
+    ba_delta = merge_methods.dropout(*deltas, probability=probability, overlap=overlap, overlap_emphasis=overlap_emphasis, seed=seed)
     return merge_methods.add_difference(a, ba_delta, alpha=alpha)
 
 
@@ -297,7 +297,7 @@ def ties_with_dare(
     res = ties_sum_with_dropout(
         *deltas,
         probability=probability,
-        rescale=rescale,
+        no_rescale=not rescale,
         k=k,
         vote_sgn=vote_sgn,
         seed=seed,
-- 
2.43.0


From 5d9fe17a3665e0b7287d3d9c0a686014d3787037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:24 +0000
Subject: [PATCH 22/30] fix: dropout with independent masks, and rescaling in
 ties_sum_with_dropout unless disabled

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index c3e1574..0c5b88a 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -598,10 +598,10 @@ def dropout(  # aka n-supermario
     rng = np.random.default_rng(seed)
 
     if overlap % 2 == 1:
-        masks = tuple(
+        masks = torch.stack([
             torch.from_numpy(rng.binomial(n=1, p=1 - probability, size=delta0.shape)).to(device=delta0.device, dtype=torch.bool)
             for _ in range(len(deltas))
-        )
+        ])
     else:
         ks = np.arange(2 ** len(deltas))
         pmf = overlapping_sets_pmf(len(deltas), probability, overlap, overlap_emphasis)
@@ -699,7 +699,7 @@ def ties_sum_with_dropout(
     if math.isclose(probability, 1.0):
         # Corner case
         return deltas * 0.0
-    elif no_rescale:
+    elif not no_rescale:
         # Rescale
         # $$ \hat{\delta}^t = \tilde{\delta}^t / (1-p) $$
         return deltas / (1.0 - probability) 
-- 
2.43.0


From 98564f97880104fbaf83b37e6292d1c308ea7ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:25 +0000
Subject: [PATCH 23/30] fix: a malformed header entry is not a missing key

---
 sd_mecha/streaming.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 92d07f6..d067eea 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -97,7 +97,11 @@ class InSafetensorsDict(SafetensorsMapping):
     def __getitem__(self, key: str) -> torch.Tensor:
         if key not in self.header or key == "__metadata__":
             raise StateDictKeyError(key)
-        return self._load_tensor(key)
+        try:
+            return self._load_tensor(key)
+        except KeyError as e:
+            # a KeyError would be mistaken for a missing key
+            raise ValueError(f"malformed header of {self.file_path}: no {e} for key '{key}'") from e
 
     def __iter__(self) -> Iterator[str]:
         return iter(self.keys())
-- 
2.43.0


From 3f15fe3d643b875817637234e407ac0b2a0e68ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 24/30] fix: count the models inside dictionaries of recipes
 when sharing out the buffer budget

---
 sd_mecha/recipe_nodes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/recipe_nodes.py b/sd_mecha/recipe_nodes.py
index f742f84..ba8cdd2 100644
--- a/sd_mecha/recipe_nodes.py
+++ b/sd_mecha/recipe_nodes.py
@@ -4,7 +4,7 @@ import pathlib
 import torch
 from .extensions import model_configs, merge_methods, merge_spaces
 from .extensions.merge_spaces import MergeSpace
-from typing import Optional, Dict, Tuple, Union
+from typing import Optional, Dict, Mapping, Tuple, Union
 
 
 class RecipeNode(abc.ABC):
@@ -240,6 +240,8 @@ class ModelsCountVisitor(RecipeVisitor):
         self.__seen_nodes = []
 
     def visit_literal(self, node: LiteralRecipeNode) -> int:
+        if isinstance(node.value, Mapping):
+            return sum(v.accept(self) for v in node.value.values() if isinstance(v, RecipeNode))
         return 0
 
     def visit_model(self, node: ModelRecipeNode) -> int:
-- 
2.43.0


From 54e79c9a660e9d5284320269e3e85c51784e2942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:36 +0000
Subject: [PATCH 25/30] fix: saving a recipe never leaves a part of it at its
 path

A truncated .mecha file is a valid recipe of something else.
---
 sd_mecha/serialization.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 45d6008..373d408 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -1,5 +1,9 @@
+import contextlib
 import logging
+import os
 import pathlib
+import shutil
+import uuid
 from typing import List, Optional, Hashable
 from .extensions import merge_methods
 from .recipe_nodes import RecipeNode, ModelRecipeNode, RecipeVisitor, LiteralRecipeNode, MergeRecipeNode
@@ -161,11 +165,33 @@ def serialize(recipe: RecipeNode, *, output: Optional[pathlib.Path | str] = None
     if output is not None:
         output = output.absolute()
         logging.info(f"Saving recipe to {output}")
-        output.write_text(serialized)
+        _write_text_atomically(output, serialized)
 
     return serialized
 
 
+def _write_text_atomically(path: pathlib.Path, text: str):
+    """
+    A recipe that is cut short is still a valid recipe, of something else: never leave a part of the text at `path`.
+    """
+    path = path.resolve()  # replace the target of a symlink, not the symlink
+    if path.exists() and not path.is_file():
+        path.write_text(text)  # devices and pipes cannot be replaced
+        return
+
+    temp_path = path.with_name(f".{uuid.uuid4().hex}.tmp")
+    try:
+        with open(temp_path, "x") as f:
+            f.write(text)
+        if path.exists():
+            shutil.copymode(path, temp_path)
+        os.replace(temp_path, path)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            temp_path.unlink()
+        raise
+
+
 def get_version_header(version: str):
     return f"version {version}"
 
-- 
2.43.0


From c0c8901e8cd07d7d2449ad5ebe3f535deb628a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 26/30] fix: log through the library's own loggers, which
 leaves the root logger unconfigured

---
 sd_mecha/merging.py       | 13 ++++++++-----
 sd_mecha/serialization.py |  5 ++++-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index f5c5793..ae352b0 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -27,6 +27,9 @@ from typing import Optional, Mapping, MutableMapping, List, Set, Iterable, Tuple
 from .typing_ import is_subclass
 
 
+logger = logging.getLogger(__name__)
+
+
 def merge(
     recipe: RecipeNodeOrValue,
     *,
@@ -276,12 +279,12 @@ def _get_output_dict(
             for model_dir in model_dirs:
                 output = model_dir / output
                 break
-        logging.info(f"Saving to {output}")
+        logger.info(f"Saving to {output}")
 
         try:
             serialized_recipe = serialization.serialize(recipe)
         except TypeError:
-            logging.warning("The recipe graph could not be serialized. The output state dict will not contain the recipe.")
+            logger.warning("The recipe graph could not be serialized. The output state dict will not contain the recipe.")
             serialized_recipe = None
         streamed_output = OutSafetensorsDict(
             output,
@@ -305,10 +308,10 @@ def _track_output(fn, output, key, check_finite: bool):
         try:
             res = fn(*args, **kwargs)
             if check_finite and isinstance(res, torch.Tensor) and not res.isfinite().all():
-                logging.warning(f"there are non finite values in key '{key}'")
+                logger.warning(f"there are non finite values in key '{key}'")
             output[key] = res
         except StateDictKeyError as k:
-            logging.debug(f"skipping key {k}")
+            logger.debug(f"skipping key {k}")
     return track_output
 
 
@@ -499,7 +502,7 @@ def check_model_config(state_dict: Iterable[str], config: ModelConfig, strip_ext
         config_keys = set(k_alias for k, v in config.keys().items() for k_alias in [k, *v.aliases])
         extra_keys = state_dict_keys - config_keys
         if extra_keys:
-            logging.warning(f"Found extra keys in state dict {state_dict_origin}: {extra_keys}")
+            logger.warning(f"Found extra keys in state dict {state_dict_origin}: {extra_keys}")
 
     if check_mandatory_keys:
         missing_keys = set()
diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 373d408..e599d90 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -9,6 +9,9 @@ from .extensions import merge_methods
 from .recipe_nodes import RecipeNode, ModelRecipeNode, RecipeVisitor, LiteralRecipeNode, MergeRecipeNode
 
 
+logger = logging.getLogger(__name__)
+
+
 MECHA_FORMAT_VERSION = "0.1.0"
 
 
@@ -164,7 +167,7 @@ def serialize(recipe: RecipeNode, *, output: Optional[pathlib.Path | str] = None
         output = pathlib.Path(output)
     if output is not None:
         output = output.absolute()
-        logging.info(f"Saving recipe to {output}")
+        logger.info(f"Saving recipe to {output}")
         _write_text_atomically(output, serialized)
 
     return serialized
-- 
2.43.0


From 6259489dbb12e092f097a4bbe1a826f424bdb259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 27/30] fix: refuse to save a merge over one of its inputs
 instead of erasing it

---
 sd_mecha/merging.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index ae352b0..7148039 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -178,6 +178,7 @@ def merge(
                 output,
                 recipe_metadata,
                 original_recipe,
+                recipe,
                 model_dirs,
                 buffer_size_per_file_per_thread,
             ) as output_dict,
@@ -264,11 +265,33 @@ class ForwardableNodesVisitor(RecipeVisitor):
             arg.accept(self)
 
 
+@dataclasses.dataclass
+class CheckOutputIsNotInputVisitor(RecipeVisitor):
+    output: pathlib.Path
+
+    def visit_literal(self, node: LiteralRecipeNode):
+        if isinstance(node.value, Mapping):
+            for v in node.value.values():
+                if isinstance(v, RecipeNode):
+                    v.accept(self)
+
+    def visit_model(self, node: ModelRecipeNode):
+        input_path = getattr(node.state_dict, "file_path", None)
+        if input_path is not None and input_path.exists() and self.output.exists() and self.output.samefile(input_path):
+            # opening the output would erase what is left to read from the input
+            raise ValueError(f"cannot save to {self.output}: it is one of the models being merged")
+
+    def visit_merge(self, node: MergeRecipeNode):
+        for arg in (*node.args, *node.kwargs.values()):
+            arg.accept(self)
+
+
 @contextlib.contextmanager
 def _get_output_dict(
     output: Optional[MutableMapping[str, torch.Tensor]] | pathlib.Path | str,
     merged_header: Mapping[str, TensorMetadata],
     recipe: RecipeNode,
+    opened_recipe: RecipeNode,
     model_dirs: Iterable[pathlib.Path],
     buffer_size_per_thread: int,
 ):
@@ -279,6 +302,7 @@ def _get_output_dict(
             for model_dir in model_dirs:
                 output = model_dir / output
                 break
+        opened_recipe.accept(CheckOutputIsNotInputVisitor(output))
         logger.info(f"Saving to {output}")
 
         try:
-- 
2.43.0


From 94d16c5fb33c87dd0e85df1b27cdc8e25c440f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:05 +0000
Subject: [PATCH 28/30] fix: save the values of negated views, not what their
 storage holds

---
 sd_mecha/streaming.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index d067eea..2011b1f 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -382,7 +382,8 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
 # this function is Apache 2.0: https://github.com/huggingface/safetensors/blob/main/LICENSE
 def tensor_to_bytes(tensor: torch.Tensor) -> bytes:
     # assume tensor is not sparse and on the cpu
-    tensor = tensor.contiguous()  # the storage of a view can be laid out differently or be larger than the view
+    # the storage of a view can be laid out differently, be larger than the view or hold the opposite values
+    tensor = tensor.resolve_neg().contiguous()
     total_bytes = tensor.numel() * tensor.element_size()
 
     ptr = tensor.data_ptr()
-- 
2.43.0


From 79b2c00defe82872f4fa71676c62fb89c6edb920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:56 +0000
Subject: [PATCH 29/30] fix: forward extra keys only within the merge space of
 the recipe, and of several in-memory models

---
 sd_mecha/merging.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 7148039..bab91ae 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -248,7 +248,7 @@ class ForwardableNodesVisitor(RecipeVisitor):
             isinstance(next(iter(node.value.values())), torch.Tensor) and
             node.model_config == self.target_config and
             node.merge_space == self.target_merge_space and
-            not any(node in n[0] for n in self.forwardable_nodes)
+            not any(node is n[0] for n in self.forwardable_nodes)
         ):
             metadata = OrderedDict(
                 (k, TensorMetadata(v.shape, v.dtype))
@@ -257,7 +257,11 @@ class ForwardableNodesVisitor(RecipeVisitor):
             self.forwardable_nodes.append((node, metadata))
 
     def visit_model(self, node: ModelRecipeNode):
-        if node.model_config == self.target_config and not any(node in n[0] for n in self.forwardable_nodes):
+        if (
+            node.model_config == self.target_config and
+            node.merge_space == self.target_merge_space and
+            not any(node in n[0] for n in self.forwardable_nodes)
+        ):
             self.forwardable_nodes.append((node, OrderedDict(node.state_dict.metadata())))
 
     def visit_merge(self, node: MergeRecipeNode):
-- 
2.43.0


From 7c4f8f4c297ea9b353bada3b7f937c199c996861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:56 +0000
Subject: [PATCH 30/30] fix: report progress to the reporter given to Defaults

---
 sd_mecha/helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sd_mecha/helpers.py b/sd_mecha/helpers.py
index ec3bb52..26315b7 100644
--- a/sd_mecha/helpers.py
+++ b/sd_mecha/helpers.py
@@ -178,6 +178,8 @@ class Defaults:
             omit_ema = self.__omit_ema
         if check_mandatory_keys is ...:
             check_mandatory_keys = self.__check_mandatory_keys
+        if tqdm is ...:
+            tqdm = self.__tqdm
 
         return merge(
             recipe,
-- 
2.43.0

