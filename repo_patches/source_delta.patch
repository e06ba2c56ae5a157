From 9c620d6fd6cc9897378bf531fe9eecaad9eea0bf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:42:13 +0000
Subject: [PATCH 001/127] fix: convert seconds to integer ns by rounding, not
 truncating (0.000065 s was 64999 ns)

---
 specula/base_time_obj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/base_time_obj.py b/specula/base_time_obj.py
index f96c255..90f1ce4 100644
--- a/specula/base_time_obj.py
+++ b/specula/base_time_obj.py
@@ -73,7 +73,7 @@ class BaseTimeObj:
         return float(t) / float(self._time_resolution)
 
     def seconds_to_t(self, seconds):
-        return int(round(seconds, ndigits=9) * self._time_resolution)
+        return int(round(round(seconds, ndigits=9) * self._time_resolution))
 
     def startMemUsageCount(self):
         if hasattr(self, 'target_device_idx') and self.target_device_idx >= 0:
-- 
2.43.0


From 90b46110cda083065483a74893dd0729d0dab819 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:46:48 +0000
Subject: [PATCH 002/127] fix: X_override_N takes precedence over X_override
 whatever their order in the file

---
 specula/simul.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/specula/simul.py b/specula/simul.py
index cdc8039..08b7192 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -888,6 +888,10 @@ class Simul():
         '''
         Add/update/remove params with additional_params
         '''
+        # Parameters set by simulation-specific overrides, that take precedence
+        # over the global ones regardless of their position in the file.
+        specific_pars = {}
+
         for name, values in additional_params.items():
             # Check if "name" ends with _ followed by a number, in that case 
             # the number is a simulation index and we skip these parameters
@@ -913,6 +917,11 @@ class Simul():
                 objname = name[:-9]
                 if objname not in params:
                     raise ValueError(f'Parameter file has no object named {objname}')
+                if match:
+                    specific_pars[objname] = values
+                else:
+                    values = {k: v for k, v in values.items()
+                              if k not in specific_pars.get(objname, {})}
                 params[objname].update(values)
             else:
                 if name in params:
-- 
2.43.0


From 65359aa4c3be376e5318831c175ba3f08742581c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 18:58:44 +0000
Subject: [PATCH 003/127] fix: count the loop iterations as they are run
 (run_time not a multiple of dt, t0 != 0)

---
 specula/loop_control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/loop_control.py b/specula/loop_control.py
index 4aa0ba1..9b4e175 100644
--- a/specula/loop_control.py
+++ b/specula/loop_control.py
@@ -39,7 +39,8 @@ class LoopControl(BaseTimeObj):
         Returns:
             int: The number of iterations.
         """
-        return int((self.run_time + self.t0) / self.dt) if self.dt != 0 else 0
+        # The last iteration is the last one starting before t0 + run_time
+        return -(-self.run_time // self.dt) if self.dt != 0 else 0
 
     def run(self, run_time, dt, t0=0, speed_report=False):
         """
-- 
2.43.0


From 224b7a6112a5e5b99067eedd3ac7ef976dee0e80 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:03:39 +0000
Subject: [PATCH 004/127] fix: do not send replicated data objects to remote
 ranks (they have no remote outputs)

---
 specula/simul.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/specula/simul.py b/specula/simul.py
index 08b7192..30f8a33 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -110,6 +110,7 @@ class Simul():
         self.max_rank = 0
         self.max_target_device_idx = 0
         self.remote_objs_ranks = {}
+        self.replicated_objs = set()
         self.param_files = param_files
         self.objs = {}
         self.simul_idx = simul_idx
@@ -382,6 +383,9 @@ class Simul():
                                 (issubclass(klass, BaseDataObj) and (par_target_rank == process_rank)) or \
                                 (process_rank == None)
 
+            if self.is_dataobj[key] and par_target_rank is None:
+                self.replicated_objs.add(key)
+
             # If not build, remember the remote rank of this object (needed for connections setup)
             if not build_this_object:
                 self.remote_objs_ranks[key] = target_rank
@@ -627,7 +631,9 @@ class Simul():
         output = self.split_output(output_name, get_ref=True)
         local_dest_object = dest_object in self.objs.keys()
 
-        send = output.ref is not None and local_dest_object is False
+        # Data objects replicated on all ranks are never sent: the destination uses its own copy
+        send = output.ref is not None and local_dest_object is False \
+               and output.obj_name not in self.replicated_objs
         recv = output.ref is None and local_dest_object is True
         local = output.ref is not None and local_dest_object is True
         if send or recv:
-- 
2.43.0


From 870298f7562067307e80b61b91dea19536e5d20d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:06:48 +0000
Subject: [PATCH 005/127] fix: send direct outputs to remote ranks after
 setup(), which can resize them

---
 specula/loop_control.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/loop_control.py b/specula/loop_control.py
index 9b4e175..626d541 100644
--- a/specula/loop_control.py
+++ b/specula/loop_control.py
@@ -80,7 +80,7 @@ class LoopControl(BaseTimeObj):
         for i in sorted(self.trigger_lists.keys()):        
             # all the objects having this trigger order could be remote            
             for element in self.trigger_lists[i]:
-                element.send_outputs(skip_delayed=False, first_mpi_send=True)
+                element.send_outputs(delayed_only=True, first_mpi_send=True)
 
         if process_comm is not None:
             process_comm.barrier()
@@ -102,6 +102,9 @@ class LoopControl(BaseTimeObj):
                     if MPI_DBG: print(process_rank, element, 'printMemUsage', flush=True)
                     element.printMemUsage()
                     if MPI_DBG: print(process_rank, 'setup', element)
+                    # direct outputs are sent after setup(), which may resize them,
+                    # so that remote setups see the same values as local ones
+                    element.send_outputs(skip_delayed=True, first_mpi_send=True)
                     #  workaround for objects that need to send outputs
                     # before the first iter() call
                     # because their outputs are used with ":-1"
-- 
2.43.0


From f0eed2e21c8021ab9c6aafffa79393ce1f4aba30 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:19:17 +0000
Subject: [PATCH 006/127] fix: save pickle times as integers (float32 lost the
 ns, so frames were not replayed)

---
 specula/processing_objects/data_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/data_store.py b/specula/processing_objects/data_store.py
index 9f7cdff..72fb976 100644
--- a/specula/processing_objects/data_store.py
+++ b/specula/processing_objects/data_store.py
@@ -123,7 +123,7 @@ class DataStore(BaseProcessingObj):
         self.replay_params = replay_params
 
     def save_pickle(self):
-        times = {k: np.array(list(v.keys()), dtype=self.dtype)
+        times = {k: np.array(list(v.keys()), dtype=np.uint64)
             for k, v in self.storage.items() if isinstance(v, OrderedDict) and k is not None}
         data = {k: np.array(list(v.values()), dtype=self.dtype)
             for k, v in self.storage.items() if isinstance(v, OrderedDict) and k is not None}
-- 
2.43.0


From 07c41a74a3a30a4630aba2a9d02dac9fc20e402e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:23:18 +0000
Subject: [PATCH 007/127] fix: DataStore.finalize() counted its additional
 trigger as an iteration (wrong downsampling, duplicated or lost last chunk)

---
 specula/processing_objects/data_store.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/data_store.py b/specula/processing_objects/data_store.py
index 72fb976..4311d66 100644
--- a/specula/processing_objects/data_store.py
+++ b/specula/processing_objects/data_store.py
@@ -82,6 +82,8 @@ class DataStore(BaseProcessingObj):
             for key, value in (downsample_factor_by_input or {}).items()
         }
         self.input_sample_counters = defaultdict(int)
+        self.last_sample_time = {}
+        self.finalizing = False
         self.init_storage()
 
     @classmethod
@@ -214,12 +216,22 @@ class DataStore(BaseProcessingObj):
 
         for k, item in self.local_inputs.items():
             if item is not None and item.generation_time == self.current_time:
-                if not self._should_store_input(k):
-                    continue
+                if self.last_sample_time.get(k) == self.current_time:
+                    # Sample already counted: just update it, if it was stored
+                    if self.current_time not in self.storage.get(k, {}):
+                        continue
+                else:
+                    self.last_sample_time[k] = self.current_time
+                    if not self._should_store_input(k):
+                        continue
                 value = item.get_value()
                 v = cpuArray(value, force_copy=True)
                 self.storage[k][self.current_time] = v
 
+        # The additional trigger in finalize() is not an iteration
+        if self.finalizing:
+            return
+
         # If we are saving a split TN, check whether it is time to save a new chunk
         # In case, clear the storage dictionary to restart with an empty one.
         self.iter_counter += 1
@@ -251,6 +263,7 @@ class DataStore(BaseProcessingObj):
 
         # Perform an additional trigger to ensure all data is captured,
         # including any calculations done in other objects' finalize() methods
+        self.finalizing = True
         self.trigger_code()
 
         if self.split_size == 0:
@@ -259,6 +272,11 @@ class DataStore(BaseProcessingObj):
             else:
                 os.makedirs(self.tn_dir_orig,exist_ok=True)
             self.save()
+        elif any(self.storage.values()):
+            # Last chunk, not complete
+            chunk_start = self.iter_counter - self.iter_counter % self.split_size
+            self.create_TN_folder(suffix=f'_{chunk_start + self.first_suffix}')
+            self.save()
 
     def check_input_names(self):
         # DataStore inputs are added dynamically via input_list;
-- 
2.43.0


From 7ba5a650ab58bc4f954bbb7b1dec486a71cdb180 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:25:49 +0000
Subject: [PATCH 008/127] fix: replay files handle list and delayed inputs, and
 building them does not change the parameters given

---
 specula/simul.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/specula/simul.py b/specula/simul.py
index 30f8a33..c3ae12e 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -748,6 +748,23 @@ class Simul():
 
         return data_source_pars, objnames, data_source_outputs
 
+    def replace_stored_inputs(self, inputs, data_source_outputs):
+        '''
+        Return a copy of an inputs dictionary where all outputs that have been
+        stored on disk are read from the data source, keeping aliases and delays.
+        '''
+        def replace(full_name):
+            output = self.split_output(full_name)
+            stored_name = data_source_outputs.get(f'{output.obj_name}.{output.output_key}')
+            if stored_name is None:
+                return full_name
+            prefix = f'{output.input_name}-' if output.input_name is not None else ''
+            suffix = f':{output.delay}' if output.delay != 0 else ''
+            return f'{prefix}data_source.{stored_name}{suffix}'
+
+        return {k: [replace(x) for x in v] if isinstance(v, list) else replace(v)
+                for k, v in inputs.items()}
+
     def build_replay(self, params):
         replay_params = deepcopy(params)
         obj_to_remove = []
@@ -769,15 +786,8 @@ class Simul():
             del replay_params[obj_name]
 
         for key, pars in replay_params.items():
-            if not key=='data_source':
-                if 'inputs' in pars.keys():
-                    for input_name, output_name_full in pars['inputs'].items():
-                        if type(output_name_full) is list:
-                            print('TODO: list of inputs is not handled in output replay')
-                            continue
-                        print('output_name_full', output_name_full)
-                        if output_name_full in data_source_outputs.keys():
-                            replay_params[key]['inputs'][input_name] = 'data_source.' + data_source_outputs[output_name_full]
+            if key != 'data_source' and 'inputs' in pars:
+                pars['inputs'] = self.replace_stored_inputs(pars['inputs'], data_source_outputs)
 
         return replay_params
 
@@ -823,11 +833,11 @@ class Simul():
                 desc = self.split_output(_input)
                 # Use the complete key for lookup
                 complete_key = f"{desc.obj_name}.{desc.output_key}"
-                if complete_key in datastore_outputs:
-                    replay_params[key]['inputs'][k] = 'data_source.' + datastore_outputs[complete_key]
-                    continue
-                else:
+                if complete_key not in datastore_outputs:
                     add_key(desc.obj_name)
+            if 'inputs' in params[key]:
+                replay_params[key]['inputs'] = self.replace_stored_inputs(params[key]['inputs'],
+                                                                          datastore_outputs)
             # Add all references to other objects
             for k, v in params[key].items():
                 if k.endswith('_list_ref'):
-- 
2.43.0


From 92616bf05d6f8cad3909bacd804f9e21b3ab6563 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:28:16 +0000
Subject: [PATCH 009/127] fix: DataSource values exist before the first stored
 sample, as setup() of their readers needs them

---
 specula/processing_objects/data_source.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/data_source.py b/specula/processing_objects/data_source.py
index fe46053..5faef75 100644
--- a/specula/processing_objects/data_source.py
+++ b/specula/processing_objects/data_source.py
@@ -35,7 +35,10 @@ class DataSource(BaseProcessingObj):
             if self.obj_type[k] not in ['BaseValue', 'BaseDataObj']:
                 self.outputs[k] = import_class(self.obj_type[k]).from_header(self.headers[k])
             else:
-                self.outputs[k] = BaseValue(target_device_idx=self.target_device_idx)
+                # Allocate the value, because other objects
+                # can read it before the first stored sample
+                value = next((0 * v for v in self.storage[k].values()), None)
+                self.outputs[k] = BaseValue(value=value, target_device_idx=self.target_device_idx)
 
     @classmethod
     def input_names(cls):
-- 
2.43.0


From dff6eedbbdb1adada7559f544c420378dcba448c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:28:16 +0000
Subject: [PATCH 010/127] fix: the replay file keeps stored objects whose other
 outputs or references are still needed

---
 specula/simul.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/specula/simul.py b/specula/simul.py
index c3ae12e..d1dc5a4 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -782,7 +782,26 @@ class Simul():
                 data_source_objname = key
                 obj_to_remove.append(data_source_objname)
 
-        for obj_name in set(obj_to_remove):
+        # Keep the objects that are still needed by those not removed
+        obj_to_remove = set(obj_to_remove)
+        while True:
+            needed = set()
+            for key, pars in params.items():
+                if key in obj_to_remove:
+                    continue
+                for _, fullname in self.iterate_inputs(pars):
+                    output = self.split_output(fullname)
+                    if f'{output.obj_name}.{output.output_key}' not in data_source_outputs:
+                        needed.add(output.obj_name)
+                for name, value in pars.items():
+                    if name.endswith('_ref'):
+                        for x in value if isinstance(value, list) else [value]:
+                            needed.add(self.output_owner(x))
+            if not needed & obj_to_remove:
+                break
+            obj_to_remove -= needed
+
+        for obj_name in obj_to_remove:
             del replay_params[obj_name]
 
         for key, pars in replay_params.items():
-- 
2.43.0


From 86167ac9be7e902d3c48cde1d97cded505eaaf99 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:48:40 +0000
Subject: [PATCH 011/127] fix: Intmat.restore loses slope statistics, tags and
 normalization

---
 specula/data_objects/intmat.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/specula/data_objects/intmat.py b/specula/data_objects/intmat.py
index 34a42e5..a408738 100644
--- a/specula/data_objects/intmat.py
+++ b/specula/data_objects/intmat.py
@@ -165,12 +165,11 @@ class Intmat(BaseDataObj):
             pupdata_tag = hdr.get('PUP_TAG', '')
             subapdata_tag = hdr.get('SA_TAG', '')
             # Reading additional fits extensions
-            if len(hdul) >= 4:
-                slope_mm = hdul[2].data.copy()
-                slope_rms = hdul[3].data.copy()
-            else:
-                slope_mm = slope_rms = None
-        return Intmat(intmat, slope_mm, slope_rms, pupdata_tag, subapdata_tag, norm_factor, target_device_idx=target_device_idx)
+            slope_mm = hdul['SLOPEMM'].data.copy() if 'SLOPEMM' in hdul else None
+            slope_rms = hdul['SLOPERMS'].data.copy() if 'SLOPERMS' in hdul else None
+        return Intmat(intmat, slope_mm=slope_mm, slope_rms=slope_rms, pupdata_tag=pupdata_tag,
+                      subapdata_tag=subapdata_tag, norm_factor=norm_factor,
+                      target_device_idx=target_device_idx)
 
     def generate_rec(self, nmodes=None, cut_modes=0, w_vec=None, interactive=False):
         if nmodes is not None:
-- 
2.43.0


From 753356c12b3758ae45bfb2d96f7fa2fb1bb28180 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:48:40 +0000
Subject: [PATCH 012/127] fix: M2C normalization factor is lost when saved and
 restored

---
 specula/data_objects/m2c.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/data_objects/m2c.py b/specula/data_objects/m2c.py
index 9856c57..8fee615 100644
--- a/specula/data_objects/m2c.py
+++ b/specula/data_objects/m2c.py
@@ -59,6 +59,8 @@ class M2C(BaseDataObj):
     def get_fits_header(self):
         hdr = fits.Header()
         hdr['VERSION'] = 1
+        if self.norm_factor is not None:
+            hdr['NORMFACT'] = self.norm_factor
         return hdr
 
     def save(self, filename, overwrite:bool=False):
@@ -80,4 +82,5 @@ class M2C(BaseDataObj):
             if version != 1:
                 raise ValueError(f"Unknown version {version} in file {filename}")
             m2c = hdul[1].data
-        return M2C(m2c=m2c, target_device_idx=target_device_idx)
+            norm_factor = hdr.get('NORMFACT')
+        return M2C(m2c=m2c, norm_factor=norm_factor, target_device_idx=target_device_idx)
-- 
2.43.0


From bd38f6fb0afd3d3a8ad867e839e9a5424ffc01e1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:48:40 +0000
Subject: [PATCH 013/127] fix: Layer flux S0 is lost when saved and restored

---
 specula/data_objects/layer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specula/data_objects/layer.py b/specula/data_objects/layer.py
index 0d21279..7e92dd7 100644
--- a/specula/data_objects/layer.py
+++ b/specula/data_objects/layer.py
@@ -64,6 +64,7 @@ class Layer(ElectricField):
         hdr['SHIFTY'] = float(self.shiftXYinPixel[1])
         hdr['ROTATION'] = self.rotInDeg
         hdr['MAGNIFIC'] = self.magnification
+        hdr['S0'] = float(self.S0)
         return hdr
 
     def save(self, filename, overwrite=True):
@@ -89,6 +90,7 @@ class Layer(ElectricField):
         rotInDeg = float(hdr['ROTATION'])
         magnification = float(hdr['MAGNIFIC'])
         layer = Layer(dimx, dimy, pitch, height, (shiftX, shiftY), rotInDeg, magnification, target_device_idx=target_device_idx)
+        layer.S0 = float(hdr.get('S0', 0.0))
         return layer
 
     @staticmethod
-- 
2.43.0


From 5cf80ef29dfdb25f6a1ce5a527299de3eeed41bb Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:48:40 +0000
Subject: [PATCH 014/127] fix: Slopes.resize to an odd size discards the last
 element from the y slopes

---
 specula/data_objects/slopes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/data_objects/slopes.py b/specula/data_objects/slopes.py
index 1ee20ef..9636c9c 100644
--- a/specula/data_objects/slopes.py
+++ b/specula/data_objects/slopes.py
@@ -73,7 +73,7 @@ class Slopes(BaseDataObj):
             self.indices_y = self.indices_x + 1
         else:
             self.indices_x = self.xp.arange(0, self.size // 2)
-            self.indices_y = self.indices_x + self.size // 2
+            self.indices_y = self.xp.arange(self.size//2, self.size) # same as in __init__
 
     @property
     def size(self):
-- 
2.43.0


From da5f73d6fbc041c4c2a86f41eb9337bdff5e5573 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:48:40 +0000
Subject: [PATCH 015/127] fix: BaseValue.save fails on 0-d array values

---
 specula/base_value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/base_value.py b/specula/base_value.py
index 2704de3..4dd99b4 100644
--- a/specula/base_value.py
+++ b/specula/base_value.py
@@ -39,7 +39,7 @@ class BaseValue(BaseDataObj):
     def save(self, filename, overwrite=False):
         hdr = self.get_fits_header()
 
-        if type(self.value) in array_types:
+        if type(self.value) in array_types and self.value.ndim > 0:
             data = cpuArray(self.value)
             hdr['NDARRAY'] = 1
         else:
-- 
2.43.0


From aaeeac0b119837b7670d79b0e2f2c2b3e8e09a5e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:48:40 +0000
Subject: [PATCH 016/127] fix: LaserLaunchTelescope without a position is
 restored with one

---
 .../data_objects/laser_launch_telescope.py    | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/specula/data_objects/laser_launch_telescope.py b/specula/data_objects/laser_launch_telescope.py
index 359e602..7bb972e 100644
--- a/specula/data_objects/laser_launch_telescope.py
+++ b/specula/data_objects/laser_launch_telescope.py
@@ -35,10 +35,9 @@ class LaserLaunchTelescope(BaseDataObj):
         beacon_tt : list
             The tilt and tip of the beacon in arcsec.
 
-        TODO the empty tel_position array is actually significant, because
-            it is checked in the SH code to manage the kernels,
-            but gives some problems for the FITS header (when reading from disk,
-            it won't be empty anymore)
+        The empty tel_position array is significant, because it is checked in
+        the SH code to manage the kernels: it is saved to FITS files by not
+        writing the TELPOS keywords.
         """
         super().__init__(target_device_idx=target_device_idx, precision=precision)
 
@@ -75,10 +74,10 @@ class LaserLaunchTelescope(BaseDataObj):
         hdr['VERSION'] = 1
         hdr['SPOTSIZE'] = self.spot_size
 
-        tel_pos = [0.0, 0.0, 0.0] if self.tel_pos == [] else self.tel_pos
-        hdr['TELPOS_X'] = tel_pos[0]
-        hdr['TELPOS_Y'] = tel_pos[1]
-        hdr['TELPOS_Z'] = tel_pos[2]
+        if len(self.tel_pos) != 0:
+            hdr['TELPOS_X'] = self.tel_pos[0]
+            hdr['TELPOS_Y'] = self.tel_pos[1]
+            hdr['TELPOS_Z'] = self.tel_pos[2]
         hdr['BEAC_FOC'] = self.beacon_focus
         hdr['BEAC_TT0'] = self.beacon_tt[0]
         hdr['BEAC_TT1'] = self.beacon_tt[1]
@@ -97,10 +96,15 @@ class LaserLaunchTelescope(BaseDataObj):
         if version != 1:
             raise ValueError(f'Error: unknown version {version} in header')
 
+        if 'TELPOS_X' in hdr:
+            tel_position = [hdr['TELPOS_X'], hdr['TELPOS_Y'], hdr['TELPOS_Z']]
+        else:
+            tel_position = []
+
         llt = LaserLaunchTelescope(
             simul_params=SimulParams(zenithAngleInDeg=0.0),
             spot_size = hdr['SPOTSIZE'],
-            tel_position = [hdr['TELPOS_X'], hdr['TELPOS_Y'], hdr['TELPOS_Z']],
+            tel_position = tel_position,
             beacon_focus = hdr['BEAC_FOC'],
             beacon_tt = [hdr['BEAC_TT0'], hdr['BEAC_TT1']],
             target_device_idx=target_device_idx)
-- 
2.43.0


From 77c99268e4715a2c2797d532b2c369f1a4160a90 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:48:40 +0000
Subject: [PATCH 017/127] fix: Source with infinite height (the default) cannot
 be saved

---
 specula/data_objects/source.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/data_objects/source.py b/specula/data_objects/source.py
index bd96520..ceee7f3 100644
--- a/specula/data_objects/source.py
+++ b/specula/data_objects/source.py
@@ -78,7 +78,8 @@ class Source(BaseDataObj):
         hdr['PCOORD1'] = self.orig_polar_coordinates[1]
         hdr['MAGNITUD'] = self.magnitude
         hdr['WAVELENG'] = self.wavelengthInNm
-        hdr['HEIGHT'] = self.height
+        # FITS headers cannot hold an infinite value
+        hdr['HEIGHT'] = self.height if np.isfinite(self.height) else str(self.height)
         hdr['BAND'] = self.band
         hdr['ZEROPNT'] = self.zero_point
         hdr['ERR_CRD0'] = self.error_coord[0]
@@ -176,7 +177,7 @@ class Source(BaseDataObj):
         return Source(polar_coordinates=[ hdr['PCOORD0'], hdr['PCOORD1']],
                  magnitude=hdr['MAGNITUD'],
                  wavelengthInNm=hdr['WAVELENG'],
-                 height=hdr['HEIGHT'],
+                 height=float(hdr['HEIGHT']),
                  band=hdr['BAND'],
                  zero_point=hdr['ZEROPNT'],
                  error_coord=[ hdr['ERR_CRD0'], hdr['ERR_CRD1']],
-- 
2.43.0


From b4028a92ba4979cf486449379fd1ecf93870e4ae Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:59:09 +0000
Subject: [PATCH 018/127] fix: rebin2d compares the second axis with itself,
 non-square arrays were refused

---
 specula/lib/rebin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/lib/rebin.py b/specula/lib/rebin.py
index b1435f0..9efd4be 100644
--- a/specula/lib/rebin.py
+++ b/specula/lib/rebin.py
@@ -48,11 +48,11 @@ def rebin2d(a, shape, sample=False, xp=None):
         M, N = a.shape
         m, n = shape
 
-        if m<=M and n<=M:
+        if m<=M and n<=N:
             if (M//m != M/m) or (N//n != N/n):
                 raise ValueError('Resampling by non-integer factors is not supported')
             return a.reshape((m,M//m,n,N//n)).mean(3).mean(1)
-        elif m>=M and n>=M:
+        elif m>=M and n>=N:
             raise ValueError('Upsampling with sample=False is not supported')
         else:
             raise ValueError('Upsampling and downsampling in different axes it not supported')
-- 
2.43.0


From 4be4e8167e69a1214a9fb38367e498b21617e990 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 19:59:09 +0000
Subject: [PATCH 019/127] fix: CCD binning averages pixels instead of summing
 them, losing flux

---
 specula/processing_objects/ccd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/ccd.py b/specula/processing_objects/ccd.py
index fa7217f..0b40c43 100644
--- a/specula/processing_objects/ccd.py
+++ b/specula/processing_objects/ccd.py
@@ -318,7 +318,8 @@ class CCD(BaseProcessingObj):
 
         if self._binning > 1:
             newshape = (intensity.shape[0] // self._binning, intensity.shape[1] // self._binning)
-            self._pixels.pixels[:] = rebin2d(intensity, newshape, xp=self.xp)
+            # rebin2d() averages, while a binned pixel collects the light of all its pixels
+            self._pixels.pixels[:] = rebin2d(intensity, newshape, xp=self.xp) * self._binning**2
         else:
             self._pixels.pixels[:] = intensity
 
-- 
2.43.0


From 4c4ac9ca88a5e002261406bc57d62720bbe56db7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:04:02 +0000
Subject: [PATCH 020/127] fix: LowPassFilter with neither amplif_fact nor n_ord
 fails instead of using the default order

---
 specula/processing_objects/low_pass_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specula/processing_objects/low_pass_filter.py b/specula/processing_objects/low_pass_filter.py
index c733405..f6a280c 100644
--- a/specula/processing_objects/low_pass_filter.py
+++ b/specula/processing_objects/low_pass_filter.py
@@ -28,6 +28,8 @@ class LowPassFilter(IirFilter):
             iir_filter_data = IirFilterData.lpf_from_fc_and_ampl(cutoff_freq, amplif_fact,
                                                samp_freq, target_device_idx=target_device_idx)
         else:
+            if n_ord is None:
+                n_ord = 2
             iir_filter_data = IirFilterData.lpf_from_fc(cutoff_freq, samp_freq, n_ord=n_ord,
                                                         target_device_idx=target_device_idx)
 
-- 
2.43.0


From a1482a9e825bdd7aeaf09c4c8173c0a22eb43c04 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:04:02 +0000
Subject: [PATCH 021/127] fix: DynamicIntegrator refuses a gain per mode, and
 the error handler itself raises

---
 specula/processing_objects/dynamic_iir_filter.py | 2 +-
 specula/processing_objects/dynamic_integrator.py | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/dynamic_iir_filter.py b/specula/processing_objects/dynamic_iir_filter.py
index 9e91587..758a1cb 100644
--- a/specula/processing_objects/dynamic_iir_filter.py
+++ b/specula/processing_objects/dynamic_iir_filter.py
@@ -82,4 +82,4 @@ class DynamicIirFilter(IirFilter):
                 int_gain = cpuArray(gain_input.get_value())
                 self.iir_filter_data.set_gain(int_gain)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
diff --git a/specula/processing_objects/dynamic_integrator.py b/specula/processing_objects/dynamic_integrator.py
index d8c2b68..8b386c6 100644
--- a/specula/processing_objects/dynamic_integrator.py
+++ b/specula/processing_objects/dynamic_integrator.py
@@ -1,4 +1,5 @@
 
+from specula import cpuArray
 from specula.processing_objects.integrator import Integrator
 from specula.base_processing_obj import InputDesc, OutputDesc
 from specula.data_objects.simul_params import SimulParams
@@ -88,7 +89,9 @@ class DynamicIntegrator(Integrator):
         try:
             gain_input = self.local_inputs['int_gain']
             if gain_input is not None and gain_input.generation_time == self.current_time:
-                int_gain = float(gain_input.value)
+                int_gain = cpuArray(gain_input.value)
+                if int_gain.size == 1:
+                    int_gain = int_gain.item()
                 self.iir_filter_data.set_gain(int_gain)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
-- 
2.43.0


From 59074827a838eefa681a1e41f742ddfc5694d50b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:10:30 +0000
Subject: [PATCH 022/127] fix: delayed readers of a filter's output saw its
 buffer already shifted for the next step

---
 specula/processing_objects/base_filter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/base_filter.py b/specula/processing_objects/base_filter.py
index 1252bb4..bc13d40 100644
--- a/specula/processing_objects/base_filter.py
+++ b/specula/processing_objects/base_filter.py
@@ -136,11 +136,13 @@ class BaseFilter(BaseProcessingObj):
                 output = (remainder_delay * self.output_buffer[:, delay_idx] +
                          (1 - remainder_delay) * self.output_buffer[:, delay_idx - 1])
 
-        self.out_comm.value = output
+        # Copies, because the buffer is shifted before the next trigger
+        # and delayed readers must keep seeing this value until then
+        self.out_comm.value = output.copy()
         self.out_comm.generation_time = self.current_time
 
         # No-delay output (for POLC)
-        self.out_comm_no_delay.value = self.output_buffer[:, 0]
+        self.out_comm_no_delay.value = self.output_buffer[:, 0].copy()
         self.out_comm_no_delay.generation_time = self.current_time
 
     @abstractmethod
-- 
2.43.0


From 005273c3dfeb14fb18936fc849e4cea8cb238e33 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:12:28 +0000
Subject: [PATCH 023/127] fix: a filter created with zero gain ignored any gain
 set later

---
 specula/data_objects/iir_filter_data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/specula/data_objects/iir_filter_data.py b/specula/data_objects/iir_filter_data.py
index 1b7b19f..69f8dc0 100644
--- a/specula/data_objects/iir_filter_data.py
+++ b/specula/data_objects/iir_filter_data.py
@@ -115,6 +115,9 @@ class IirFilterData(BaseDataObj):
         nonzero_gain = np.abs(gain) > 0
         safe_gain = np.where(nonzero_gain, gain, 1.0)
         num_normalized = mynum / safe_gain[:, None]
+        # A filter with zero gain has the unit gain numerator,
+        # otherwise it could never be given a gain later
+        num_normalized[~mynum.any(axis=1), -1] = 1.0
         self.gain = self.to_xp(gain, dtype=self.dtype)
         self._num_normalized = self.to_xp(num_normalized, dtype=self.dtype)
         self.zeros = None
-- 
2.43.0


From 4674cbdc9e0a1a048b302e59f280e59fd8312eda Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:17:17 +0000
Subject: [PATCH 024/127] fix: from_control_tf lost the delay of strictly
 proper transfer functions

---
 specula/data_objects/iir_filter_data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/specula/data_objects/iir_filter_data.py b/specula/data_objects/iir_filter_data.py
index 69f8dc0..8597ac4 100644
--- a/specula/data_objects/iir_filter_data.py
+++ b/specula/data_objects/iir_filter_data.py
@@ -1093,6 +1093,12 @@ class IirFilterData(BaseDataObj):
             num[i, max_len - len(num_coeffs):] = num_coeffs[::-1]
             den[i, max_len - len(den_coeffs):] = den_coeffs[::-1]
 
+            # A numerator of lower degree is a delay, which must not be lost
+            n_delay = len(den_coeffs) - len(num_coeffs)
+            if n_delay > 0:
+                num[i] = np.roll(num[i], -n_delay)
+                ord_num[i] = max_len
+
         return IirFilterData(ord_num, ord_den, num, den, target_device_idx=target_device_idx)
 
     def bode_plot(self, mode: int = 0, dt: float = None, omega: np.ndarray = None,
-- 
2.43.0


From 31e94135f6cfdb51a5c4762cd6517b034e1c462d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:29:21 +0000
Subject: [PATCH 025/127] fix: EFInterpolator.update_parameters swapped the
 kept x and y shifts, and required the magnification

---
 specula/lib/extrapolation_2d.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/specula/lib/extrapolation_2d.py b/specula/lib/extrapolation_2d.py
index 2fb0240..bfd871f 100644
--- a/specula/lib/extrapolation_2d.py
+++ b/specula/lib/extrapolation_2d.py
@@ -347,14 +347,15 @@ class EFInterpolator():
                           rotAnglePhInDeg=None, magnification=None):
         """Re-initialize the internal Interp2D object with new misalignment parameters."""
 
-        if magnification < 1e-6:
+        if magnification is not None and magnification < 1e-6:
             raise ValueError("Magnification must be greater than 1e-6 to avoid numerical issues.")
 
         # Retrieve current parameters if not provided
         current_rot = -self.interp.rot_angle * 180.0 / np.pi
 
-        new_x = xShiftPhInPixel if xShiftPhInPixel is not None else float(self.interp.shift_x)
-        new_y = yShiftPhInPixel if yShiftPhInPixel is not None else float(self.interp.shift_y)
+        # The x shift is given to Interp2D as the row shift, and the y shift as the column one
+        new_x = xShiftPhInPixel if xShiftPhInPixel is not None else float(self.interp.shift_y)
+        new_y = yShiftPhInPixel if yShiftPhInPixel is not None else float(self.interp.shift_x)
         new_rot = rotAnglePhInDeg if rotAnglePhInDeg is not None else current_rot
         new_mag = magnification if magnification is not None else float(self.interp.magnification)
 
-- 
2.43.0


From b2ee6308367405e0e5b5087a4ca24eab05a0dfca Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:32:02 +0000
Subject: [PATCH 026/127] fix: CiaoCiaoSensor rotated its field in place when
 the input is interpolated too

---
 specula/processing_objects/ciao_ciao_sensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/ciao_ciao_sensor.py b/specula/processing_objects/ciao_ciao_sensor.py
index 876a7a3..e2e4007 100644
--- a/specula/processing_objects/ciao_ciao_sensor.py
+++ b/specula/processing_objects/ciao_ciao_sensor.py
@@ -190,7 +190,7 @@ class CiaoCiaoSensor(BaseProcessingObj):
             xShiftPhInPixel=self.xShiftDiffPhInPixel,
             yShiftPhInPixel=self.yShiftDiffPhInPixel,
             magnification=self.magnificationDiff,
-            use_out_ef_cache=True,
+            use_out_ef_cache=False, # the cached array can be the same used as input here
             target_device_idx=self.target_device_idx,
             precision=self.precision
         )
-- 
2.43.0


From 3824aed434980fa0968b3f3278e4f4171157b177 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:34:14 +0000
Subject: [PATCH 027/127] fix: rebin2d with sample=True gave wrong sizes or
 pixels for some factors (toccd failed e.g. from 48 to 49 pixels)

---
 specula/lib/rebin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specula/lib/rebin.py b/specula/lib/rebin.py
index 9efd4be..de04359 100644
--- a/specula/lib/rebin.py
+++ b/specula/lib/rebin.py
@@ -40,9 +40,9 @@ def rebin2d(a, shape, sample=False, xp=None):
         return a
 
     if sample:
-        slices = [ slice(0,old, float(old)/new) for old,new in zip(a.shape,shape) ]
-        idx = xp.mgrid[slices].astype(xp.int32)
-        return a[tuple(idx)]
+        # Integer arithmetic: with a float step, rounding gives wrong indexes or array sizes
+        idx = [xp.arange(new) * old // new for old,new in zip(a.shape,shape)]
+        return a[xp.ix_(*idx)]
 
     else:
         M, N = a.shape
-- 
2.43.0


From 9c6236b27429eabbb77bbaaf44c565146532cb93 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:51:28 +0000
Subject: [PATCH 028/127] fix: BaseSlicer output was a view of its input for
 slices, and slices counting from the end failed

---
 specula/processing_objects/base_slicer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/base_slicer.py b/specula/processing_objects/base_slicer.py
index 2910cd6..0e7e0db 100644
--- a/specula/processing_objects/base_slicer.py
+++ b/specula/processing_objects/base_slicer.py
@@ -33,8 +33,9 @@ class BaseSlicer(BaseProcessingObj):
             start = self.slice_obj.start
             stop = self.slice_obj.stop
             step = self.slice_obj.step if self.slice_obj.step is not None else 1
-            if start is not None and stop is not None:
-                n_elements = (stop - start + step - 1) // step
+            # Indices relative to the end of the vector depend on the input length
+            if start is not None and stop is not None and start >= 0 and stop >= 0:
+                n_elements = len(range(start, stop, step))
         value = self.xp.zeros(n_elements, dtype=self.dtype) \
             if n_elements is not None else self.xp.array([], dtype=self.dtype)
         # ----------------------------------
@@ -57,7 +58,7 @@ class BaseSlicer(BaseProcessingObj):
             self.out_value.value = value[self.indices]
         elif self.slice_obj is not None:
             # Use slice object to extract the desired values
-            self.out_value.value = value[self.slice_obj]
+            self.out_value.value = value[self.slice_obj].copy()
         else:
             # No slicing, copy the whole value
             self.out_value.value = value.copy()
-- 
2.43.0


From 4ba01c18ec5557ad83b74bac42933d7398322b26 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:51:28 +0000
Subject: [PATCH 029/127] fix: Demodulator ignored mode_numbers when its input
 is a vector of modes

---
 specula/processing_objects/demodulator.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/specula/processing_objects/demodulator.py b/specula/processing_objects/demodulator.py
index aaa07d3..5910f50 100644
--- a/specula/processing_objects/demodulator.py
+++ b/specula/processing_objects/demodulator.py
@@ -56,12 +56,7 @@ class Demodulator(BaseProcessingObj):
         data = self.local_inputs['in_data'].get_value()
 
         # Extract data for the specified modes
-        if data.ndim > 1:
-            # Multi-dimensional data - extract modes
-            mode_data = data[self.mode_numbers]
-        else:
-            # 1D data
-            mode_data = data
+        mode_data = data[self.mode_numbers]
 
         self.data_history.append(mode_data.copy())
         self.time_history.append(t)
-- 
2.43.0


From 110bd29cbf867f482b2d3abe0339541ea740ef6d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:51:28 +0000
Subject: [PATCH 030/127] fix: VibrationGenerator could generate fewer samples
 than iterations because of rounding

---
 specula/processing_objects/vibration_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/vibration_generator.py b/specula/processing_objects/vibration_generator.py
index 28a9891..05deffb 100644
--- a/specula/processing_objects/vibration_generator.py
+++ b/specula/processing_objects/vibration_generator.py
@@ -125,7 +125,7 @@ class VibrationGenerator(BaseGenerator):
 
         # Setup vibration generator
         samp_freq = 1 / simul_params.time_step
-        niter = int(simul_params.total_time / simul_params.time_step)
+        niter = int(round(simul_params.total_time / simul_params.time_step))
 
         self.time_hist = get_vibrations_time_hist(
             nmodes, psd=psd, freq=freq, seed=seed,
-- 
2.43.0


From ede6fd8ab2c663d456feb06331589be4cf206963 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:52:06 +0000
Subject: [PATCH 031/127] fix: BaseSlicer output had no size before the first
 trigger for slices of unspecified length, consumers failed

---
 specula/processing_objects/base_slicer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/specula/processing_objects/base_slicer.py b/specula/processing_objects/base_slicer.py
index 0e7e0db..df92595 100644
--- a/specula/processing_objects/base_slicer.py
+++ b/specula/processing_objects/base_slicer.py
@@ -52,6 +52,15 @@ class BaseSlicer(BaseProcessingObj):
     def output_names(cls):
         return {'out_value': OutputDesc(BaseValue, 'Output sliced vector')}
 
+    def setup(self):
+        super().setup()
+        # Size of the output not known from the parameters alone: consumers
+        # allocate their arrays in setup(), before the first trigger.
+        in_value = self.local_inputs['in_value'].value
+        if self.indices is None and in_value is not None and self.out_value.value.size == 0:
+            sliced = in_value if self.slice_obj is None else in_value[self.slice_obj]
+            self.out_value.value = self.xp.zeros_like(sliced)
+
     def trigger_code(self):
         value = self.local_inputs['in_value'].value
         if self.indices is not None:
-- 
2.43.0


From ff72938b2e4f89967984f423645a3f16b5418697 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:54:45 +0000
Subject: [PATCH 032/127] fix: ShSlopec slopes were NaN when there is no light
 in any subaperture

---
 specula/processing_objects/sh_slopec.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/specula/processing_objects/sh_slopec.py b/specula/processing_objects/sh_slopec.py
index e685a03..bdb68da 100644
--- a/specula/processing_objects/sh_slopec.py
+++ b/specula/processing_objects/sh_slopec.py
@@ -281,6 +281,9 @@ class ShSlopec(Slopec):
 #            factor[idx_le_0] = 0.0
         clamp_generic_more( 1.0 / (mean_subap_tot * 1e-3), 0, factor, xp=self.xp)
 
+        # With no light anywhere the limit above is infinite
+        factor = self.xp.where(subap_tot > 0, factor, 0)
+
         # Compute slopes
         sx = self.xp.sum(pixels * self.xweights_flat * factor[self.xp.newaxis, :], axis=0)
         sy = self.xp.sum(pixels * self.yweights_flat * factor[self.xp.newaxis, :], axis=0)
-- 
2.43.0


From f796759bd65010665a2731dad72472a6627e2c04 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:54:45 +0000
Subject: [PATCH 033/127] fix: ShSlopec could not use a schedule of weighting
 radii (list in the parameter file, or more than one entry)

---
 specula/processing_objects/sh_slopec.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/sh_slopec.py b/specula/processing_objects/sh_slopec.py
index bdb68da..c544c04 100644
--- a/specula/processing_objects/sh_slopec.py
+++ b/specula/processing_objects/sh_slopec.py
@@ -1,7 +1,7 @@
 
 import numpy as np
 
-from specula import fuse
+from specula import fuse, cpuArray
 from specula.base_processing_obj import InputDesc, OutputDesc
 from specula.base_value import BaseValue
 from specula.data_objects.pixels import Pixels
@@ -64,6 +64,8 @@ class ShSlopec(Slopec):
         self.ycweights = None
         self.mask_weighted = None
         self.weighted_pix_rad = weightedPixRad
+        if vecWeiPixRadT is not None:
+            vecWeiPixRadT = np.array(cpuArray(vecWeiPixRadT), dtype=float)
         self.vec_wei_pix_rad_t = vecWeiPixRadT
         self.windowing = windowing
         self.thr_ratio_value = 0.0
@@ -167,9 +169,9 @@ class ShSlopec(Slopec):
 
     def trigger_code(self):
         if self.vec_wei_pix_rad_t is not None:
-            idxW = self.xp.where(self.current_time_seconds > self.vec_wei_pix_rad_t[:, 1])[-1]
+            idxW = np.where(self.current_time_seconds > self.vec_wei_pix_rad_t[:, 1])[0]
             if len(idxW) > 0:
-                self.weighted_pix_rad = self.vec_wei_pix_rad_t[idxW, 0]
+                self.weighted_pix_rad = float(self.vec_wei_pix_rad_t[idxW[-1], 0])
                 if self.verbose:
                     print(f'self.weighted_pix_rad: {self.weighted_pix_rad}')
                 self.set_xy_weights()
-- 
2.43.0


From 2e6d845a3892ccbf08999ee25652e55bd303bdfc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:54:45 +0000
Subject: [PATCH 034/127] fix: PyrSlopec with shlike always failed claiming
 that norm_factor is set

---
 specula/processing_objects/pyr_slopec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/pyr_slopec.py b/specula/processing_objects/pyr_slopec.py
index f32bd3c..cf808e9 100644
--- a/specula/processing_objects/pyr_slopec.py
+++ b/specula/processing_objects/pyr_slopec.py
@@ -44,7 +44,7 @@ class PyrSlopec(Slopec):
         if shlike and slopes_from_intensity:
             raise ValueError('Both SHLIKE and SLOPES_FROM_INTENSITY parameters are set. Only one of these should be used.')
 
-        if shlike and norm_factor != 0:
+        if shlike and norm_factor is not None:
             raise ValueError('Both SHLIKE and NORM_FACTOR parameters are set. Only one of these should be used.')
 
         self.shlike = shlike
-- 
2.43.0


From f079dcd512980dadd63189188a2d35d9182c65d6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:54:45 +0000
Subject: [PATCH 035/127] fix: PyrSlopec slopes were NaN when there is no light
 in the pupils

---
 specula/processing_objects/pyr_slopec.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/pyr_slopec.py b/specula/processing_objects/pyr_slopec.py
index cf808e9..0b0798a 100644
--- a/specula/processing_objects/pyr_slopec.py
+++ b/specula/processing_objects/pyr_slopec.py
@@ -137,8 +137,9 @@ class PyrSlopec(Slopec):
             self.sx, self.sy = self._compute_pyr_slopes(A, B, C, D, factor)
 
         clamp_generic_more(0, 1, inv_factor, xp=self.xp)
-        self.sx *= inv_factor[0]
-        self.sy *= inv_factor[0]
+        # The factor is infinite with no light: use where() because inf*0 is NaN
+        self.sx = self.xp.where(inv_factor[0] == 0, 0, self.sx * inv_factor[0])
+        self.sy = self.xp.where(inv_factor[0] == 0, 0, self.sy * inv_factor[0])
 
         self.slopes.xslopes = self.sx
         self.slopes.yslopes = self.sy
-- 
2.43.0


From 36e830736fd7f9166b4c7a03f3eedc1255a5eb54 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:54:45 +0000
Subject: [PATCH 036/127] fix: ZwfsSlopec slopes were NaN when there is no
 light in the pupil

---
 specula/processing_objects/zwfs_slopec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/zwfs_slopec.py b/specula/processing_objects/zwfs_slopec.py
index 9f1dfbd..3e066d3 100644
--- a/specula/processing_objects/zwfs_slopec.py
+++ b/specula/processing_objects/zwfs_slopec.py
@@ -91,7 +91,7 @@ class ZwfsSlopec(Slopec):
         self.subap_counts.value[0] = self.total_intensity / self.nsubaps()
 
         norm_factor = self.xp.sum(metaintensity) / self.nsubaps()
-        self.slopes.slopes = metaintensity / norm_factor
+        self.slopes.slopes = self.xp.where(norm_factor == 0, 0, metaintensity / norm_factor)
 
     def post_trigger(self):
         super().post_trigger()
-- 
2.43.0


From 103f7268cf91b493421afcf9106897ea45e1f050 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:54:45 +0000
Subject: [PATCH 037/127] fix: CurWfsSlopec reported one count for each pixel
 without light

---
 specula/processing_objects/cur_wfs_slopec.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/specula/processing_objects/cur_wfs_slopec.py b/specula/processing_objects/cur_wfs_slopec.py
index 7c4f16a..bb864a1 100644
--- a/specula/processing_objects/cur_wfs_slopec.py
+++ b/specula/processing_objects/cur_wfs_slopec.py
@@ -118,9 +118,7 @@ class CurWfsSlopec(Slopec):
         sum_i = i1 + i2
 
         # Avoid division by zero
-        sum_i = self.xp.where(sum_i < 1e-9, 1.0, sum_i)
-
-        signal = (i1 - i2) / sum_i
+        signal = (i1 - i2) / self.xp.where(sum_i < 1e-9, 1.0, sum_i)
 
         # Store results
         self.slopes.slopes[:] = signal
-- 
2.43.0


From 5d33b83a7734b255029bb8b0b56abe1025b4046d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 20:54:45 +0000
Subject: [PATCH 038/127] fix: SnCalibrator lost the interleave of the slopes,
 so that wrong elements were subtracted

---
 specula/processing_objects/sn_calibrator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/sn_calibrator.py b/specula/processing_objects/sn_calibrator.py
index 0d1b574..a341cf3 100644
--- a/specula/processing_objects/sn_calibrator.py
+++ b/specula/processing_objects/sn_calibrator.py
@@ -50,7 +50,9 @@ class SnCalibrator(BaseProcessingObj):
 
     def trigger_code(self):
         if self.slopes is None:
-            self.slopes = Slopes(slopes=self.local_inputs['in_slopes'].slopes.copy(), target_device_idx=self.target_device_idx)
+            in_slopes = self.local_inputs['in_slopes']
+            self.slopes = Slopes(slopes=in_slopes.slopes.copy(), interleave=in_slopes.interleave,
+                                 target_device_idx=self.target_device_idx)
         else:
             self.slopes.slopes += self.local_inputs['in_slopes'].slopes.copy()
         self._n_iter += 1
-- 
2.43.0


From f9b2f06b6a438460eb75ba70fcd692d520b14e34 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:00:16 +0000
Subject: [PATCH 039/127] fix: Modalrec and ModalrecImplicitPolc failed with
 in_commands_list (commands have no .commands member)

---
 specula/processing_objects/modalrec.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index 9ae7e68..726142a 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -143,7 +143,12 @@ class Modalrec(BaseProcessingObj):
             commands = self.local_inputs['in_commands']
             commands_list = self.local_inputs['in_commands_list']
             if commands is None:
-                self.commands[:] = self.xp.hstack([x.commands for x in commands_list])
+                values = [x.value for x in commands_list]
+                if any(v is None for v in values):
+                    # value will be None in the first iteration
+                    self.commands[:] = 0.0
+                else:
+                    self.commands[:] = self.xp.hstack(values)
             else:
                 if commands.value is None:
                     # value will be None in the first iteration
-- 
2.43.0


From 195361549ac5131f071c19e31ee747c43d47d874 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:00:16 +0000
Subject: [PATCH 040/127] fix: Modalrec with ncutmodes or filtmat changed the
 reconstruction matrix of the other objects using it

---
 specula/processing_objects/modalrec.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index 726142a..bea0249 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -1,3 +1,5 @@
+from copy import copy
+
 from specula.base_processing_obj import BaseProcessingObj, InputDesc, OutputDesc
 from specula.base_value import BaseValue
 from specula.connections import InputList, InputValue
@@ -53,6 +55,7 @@ class Modalrec(BaseProcessingObj):
 
             if ncutmodes:
                 if recmat is not None:
+                    recmat = copy(recmat)  # may be used by other objects too
                     recmat.reduce_size(ncutmodes)
                 else:
                     print('recmat cannot be reduced because it is null.')
@@ -69,6 +72,7 @@ class Modalrec(BaseProcessingObj):
                     raise ValueError('dmNumber (>0) must be defined if projmat_tag is not defined!')
 
         if filtmat is not None and recmat is not None:
+            recmat = copy(recmat)  # may be used by other objects too
             recmat.recmat = recmat.recmat @ filtmat
             print('recmat updated with filmat!')
 
-- 
2.43.0


From 1f0d42b37a4418f56e0a6ddaeac039d45356e428 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:00:16 +0000
Subject: [PATCH 041/127] fix: ImCalibrator added the response of modes before
 first_mode to the last modes of the matrix

---
 specula/processing_objects/im_calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/im_calibrator.py b/specula/processing_objects/im_calibrator.py
index 95ab6a4..1da4ec4 100644
--- a/specula/processing_objects/im_calibrator.py
+++ b/specula/processing_objects/im_calibrator.py
@@ -171,7 +171,7 @@ class ImCalibrator(BaseProcessingObj):
         if self.intmat.nslopes == 0:
             self.intmat.set_nslopes(len(slopes))
             if self.verbose:
-                print(f"Initialized interaction matrix: {self.im.value.shape}")
+                print(f"Initialized interaction matrix: {self.intmat.intmat.shape}")
             for i in range(self.nmodes):
                 self.single_im[i].set_nslopes(len(slopes))
 
@@ -179,7 +179,7 @@ class ImCalibrator(BaseProcessingObj):
 
         if len(idx)>0:
             mode = int(idx[0]) - self.first_mode
-            if mode < self.nmodes:
+            if 0 <= mode < self.nmodes:
                 self.intmat.modes[mode] += slopes / commands[idx]
                 self.count_commands[mode] += 1
 
-- 
2.43.0


From 1b6fce76976f4f47c2cb38afa1275eb7795e4f99 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:00:16 +0000
Subject: [PATCH 042/127] fix: MultiRecCalibrator saved its matrices before
 creating their directory

---
 specula/processing_objects/multi_rec_calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/multi_rec_calibrator.py b/specula/processing_objects/multi_rec_calibrator.py
index e06a9a2..db0225e 100644
--- a/specula/processing_objects/multi_rec_calibrator.py
+++ b/specula/processing_objects/multi_rec_calibrator.py
@@ -73,6 +73,8 @@ class MultiRecCalibrator(BaseProcessingObj):
     def finalize(self):
         ims = self.local_inputs['intmat_list']
 
+        os.makedirs(self._data_dir, exist_ok=True)
+
         for i, intmat in enumerate(ims):
             if self.rec_path(i):
                 rec = intmat.generate_rec(self._nmodes)
@@ -80,8 +82,6 @@ class MultiRecCalibrator(BaseProcessingObj):
 
         full_intmat = self.local_inputs['full_intmat']
 
-        os.makedirs(self._data_dir, exist_ok=True)
-
         full_rec_path = self.full_rec_path()
         if full_rec_path:
             fullrec = full_intmat.generate_rec(self._nmodes)
-- 
2.43.0


From 1b75729e5d70690612d9ccfa79755982f3d9b412 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:00:16 +0000
Subject: [PATCH 043/127] fix: MMSE reconstructor without noise covariance
 failed (identity of the size of the modes, not of the slopes)

---
 specula/lib/mmse_reconstructor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/lib/mmse_reconstructor.py b/specula/lib/mmse_reconstructor.py
index f425b63..ad7019c 100644
--- a/specula/lib/mmse_reconstructor.py
+++ b/specula/lib/mmse_reconstructor.py
@@ -76,7 +76,7 @@ def compute_mmse_reconstructor(interaction_matrix, c_atm, xp, dtype,
             # Default: identity matrix (no noise)
             if verbose:  # pragma: no cover
                 print("No c_noise provided, using identity matrix")
-            c_noise_inv = xp.eye(A.shape[1], dtype=dtype)
+            c_noise_inv = xp.eye(A.shape[0], dtype=dtype)
 
         is_diag_atm = xp.all(xp.abs(xp.diag(xp.diag(c_atm)) - c_atm) < 1e-10)
 
@@ -96,7 +96,7 @@ def compute_mmse_reconstructor(interaction_matrix, c_atm, xp, dtype,
     else:
         # Matrices are already inverted
         c_atm_inv = c_atm
-        c_noise_inv = c_noise if c_noise is not None else xp.eye(A.shape[1], dtype=dtype)
+        c_noise_inv = c_noise if c_noise is not None else xp.eye(A.shape[0], dtype=dtype)
 
     # Compute H = A' Cz^(-1) A + Cx^(-1)
     if verbose:  # pragma: no cover
-- 
2.43.0


From 3e05fd1deb8851c745fd3b67f8f992a687c34dec Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:00:16 +0000
Subject: [PATCH 044/127] fix: MMSE reconstructor ignored the correlations of
 covariance matrices with small values (absolute threshold)

---
 specula/lib/mmse_reconstructor.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/specula/lib/mmse_reconstructor.py b/specula/lib/mmse_reconstructor.py
index ad7019c..55f5d84 100644
--- a/specula/lib/mmse_reconstructor.py
+++ b/specula/lib/mmse_reconstructor.py
@@ -1,4 +1,10 @@
 
+def _is_diagonal(c, xp):
+    """True if the off-diagonal elements are negligible with respect to the diagonal ones"""
+    diag = xp.diag(c)
+    return xp.all(xp.abs(xp.diag(diag) - c) <= 1e-10 * xp.max(xp.abs(diag)))
+
+
 def compute_mmse_reconstructor(interaction_matrix, c_atm, xp, dtype,
                                noise_variance=None, c_noise=None,
                                c_inverse=False, verbose=False):
@@ -57,7 +63,7 @@ def compute_mmse_reconstructor(interaction_matrix, c_atm, xp, dtype,
     if not c_inverse:
         # Check if matrices are diagonal
         if c_noise is not None:
-            is_diag_noise = xp.all(xp.abs(xp.diag(xp.diag(c_noise)) - c_noise) < 1e-10)
+            is_diag_noise = _is_diagonal(c_noise, xp)
 
             if is_diag_noise:
                 if verbose:  # pragma: no cover
@@ -78,7 +84,7 @@ def compute_mmse_reconstructor(interaction_matrix, c_atm, xp, dtype,
                 print("No c_noise provided, using identity matrix")
             c_noise_inv = xp.eye(A.shape[0], dtype=dtype)
 
-        is_diag_atm = xp.all(xp.abs(xp.diag(xp.diag(c_atm)) - c_atm) < 1e-10)
+        is_diag_atm = _is_diagonal(c_atm, xp)
 
         if is_diag_atm:
             if verbose:  # pragma: no cover
-- 
2.43.0


From 3986f18bc204351d996b56a0db2627e38056829a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:01:30 +0000
Subject: [PATCH 045/127] fix: MultiImCalibrator accumulated old slopes when
 only the commands were refreshed

---
 specula/processing_objects/multi_im_calibrator.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/specula/processing_objects/multi_im_calibrator.py b/specula/processing_objects/multi_im_calibrator.py
index 05e3fac..c950e5c 100644
--- a/specula/processing_objects/multi_im_calibrator.py
+++ b/specula/processing_objects/multi_im_calibrator.py
@@ -63,6 +63,8 @@ class MultiImCalibrator(BaseProcessingObj):
         # Add counts tracking for each input, this is used to normalize the IM
         self.count_commands = [np.zeros(nmodes, dtype=int) for _ in range(n_inputs)]
 
+        self.refreshed = [True] * n_inputs
+
         self.inputs['in_slopes_list'] = InputList(type=Slopes)
         self.inputs['in_commands_list'] = InputList(type=BaseValue)
 
@@ -112,6 +114,13 @@ class MultiImCalibrator(BaseProcessingObj):
         return {'out_intmat_list': OutputDesc(Intmat, 'List of per-WFS/sensor interaction matrices'),
                 'out_intmat_full': OutputDesc(Intmat, 'Full stacked interaction matrix from all sensors')}
 
+    def prepare_trigger(self, t):
+        super().prepare_trigger(t)
+        # Slopes *must* have been refreshed. We could have been triggered
+        # just by the commands, or by another sensor, but we need to skip them
+        self.refreshed = [x.generation_time == self.current_time
+                          for x in self.local_inputs['in_slopes_list']]
+
     def trigger_code(self):
 
         slopes = [x.slopes for x in self.local_inputs['in_slopes_list']]
@@ -129,6 +138,8 @@ class MultiImCalibrator(BaseProcessingObj):
                 if mode < self.nmodes:
                     # Update ALL interaction matrices for this command
                     for i, (im, ss) in enumerate(zip(self.outputs['out_intmat_list'], slopes)):
+                        if not self.refreshed[i]:
+                            continue
                         im.modes[mode] += ss / cc[idx]
                         self.count_commands[i][mode] += 1
 
-- 
2.43.0


From d81a0eb87f0b9c3d9add648c1b20a0a443d4a64b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:05:07 +0000
Subject: [PATCH 046/127] fix: ModalrecImplicitPolc gave NaN modes when the
 commands of its list have no value yet

---
 specula/processing_objects/modalrec_implicit_polc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/modalrec_implicit_polc.py b/specula/processing_objects/modalrec_implicit_polc.py
index a2f37fc..24d1830 100644
--- a/specula/processing_objects/modalrec_implicit_polc.py
+++ b/specula/processing_objects/modalrec_implicit_polc.py
@@ -101,7 +101,7 @@ class ModalrecImplicitPolc(Modalrec):
         if commandsobj is not None and commandsobj.value is not None \
                                    and commandsobj.value.shape != ():
             self.commands[:] = self.to_xp(commandsobj.value, dtype=self.dtype)
-        elif commands_list and all(commands_list):
+        elif commands_list and all(x is not None and x.value is not None for x in commands_list):
             self.commands[:] = self.xp.hstack([x.value for x in commands_list])
         # else: keep the zeros from setup() or previous iteration
 
-- 
2.43.0


From c0ce1470d3667527d45e47448300a2910a74a578 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:11:48 +0000
Subject: [PATCH 047/127] fix: AtmoPropagation ignored the chromatic shift of
 the layers for on-axis sources

---
 specula/processing_objects/atmo_propagation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specula/processing_objects/atmo_propagation.py b/specula/processing_objects/atmo_propagation.py
index 7d53b20..f046527 100644
--- a/specula/processing_objects/atmo_propagation.py
+++ b/specula/processing_objects/atmo_propagation.py
@@ -406,6 +406,7 @@ class AtmoPropagation(BaseProcessingObj):
                                 not self.shiftXY_cond[layer] and \
                                 self.pupil_position is None and \
                                 layer.rotInDeg == 0 and \
+                                source.chromatic_shifts_m.get(layer, 0.0) == 0 and \
                                 self.magnification_list[layer] == 1:
                     self.interpolators[source][layer] = None
 
-- 
2.43.0


From 385035eaf40133f6d66d35a6a4d42c4cb177752c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:11:48 +0000
Subject: [PATCH 048/127] fix: AtmoPropagation failed on magnified layers whose
 size has no small divisor

---
 specula/processing_objects/atmo_propagation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/atmo_propagation.py b/specula/processing_objects/atmo_propagation.py
index f046527..f94d7a6 100644
--- a/specula/processing_objects/atmo_propagation.py
+++ b/specula/processing_objects/atmo_propagation.py
@@ -502,7 +502,7 @@ class AtmoPropagation(BaseProcessingObj):
 
         self._block_size = {}
         for layer in self.atmo_layer_list + self.common_layer_list:
-            for div in [5, 4, 3, 2]:
+            for div in [5, 4, 3, 2, 1]:
                 if layer.size[0] % div == 0:
                     self._block_size[layer] = div
                     break
-- 
2.43.0


From 62e033852f4db991d296fbd40997e0f32f9493b2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:11:48 +0000
Subject: [PATCH 049/127] fix: ElectricFieldCombinator swapped the sides of
 non-square fields

---
 specula/processing_objects/electric_field_combinator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/electric_field_combinator.py b/specula/processing_objects/electric_field_combinator.py
index e1bcbad..7d5393d 100644
--- a/specula/processing_objects/electric_field_combinator.py
+++ b/specula/processing_objects/electric_field_combinator.py
@@ -75,8 +75,8 @@ class ElectricFieldCombinator(BaseProcessingObj):
             first_ef = in_ef1
 
         self._out_ef.resize(
-            dimx=first_ef.A.shape[0],
-            dimy=first_ef.A.shape[1],
+            dimx=first_ef.A.shape[1],
+            dimy=first_ef.A.shape[0],
             pitch=first_ef.pixel_pitch,
         )
         self.has_list = has_list
-- 
2.43.0


From 1b089419026d6afe9ab9110a18bba682f9668f34 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:11:48 +0000
Subject: [PATCH 050/127] fix: DM kept the old values of the modes missing from
 a shorter command vector

---
 specula/processing_objects/dm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specula/processing_objects/dm.py b/specula/processing_objects/dm.py
index 2c932b1..8419d68 100644
--- a/specula/processing_objects/dm.py
+++ b/specula/processing_objects/dm.py
@@ -165,10 +165,12 @@ class DM(BaseProcessingObj):
             input_commands = input_commands[:self.nmodes]
 
         if self.m2c is not None:
+            self.m2c_commands[len(input_commands):] = 0
             self.m2c_commands[:len(input_commands)] = input_commands
             cmd = self.m2c[:, self._valid_modes] @ self.m2c_commands
         else:
             cmd = input_commands
+        self.if_commands[len(cmd):] = 0
         self.if_commands[:len(cmd)] = self.sign * cmd
 
         if self.m2c is not None:
-- 
2.43.0


From 664ecfe1c4a03500cf971f8cc823b251309ec78c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:11:48 +0000
Subject: [PATCH 051/127] fix: ElectricField.array_for_display removed a mean
 taken also outside the amplitude mask

---
 specula/data_objects/electric_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/data_objects/electric_field.py b/specula/data_objects/electric_field.py
index 553d72e..f3a07ba 100644
--- a/specula/data_objects/electric_field.py
+++ b/specula/data_objects/electric_field.py
@@ -335,7 +335,7 @@ class ElectricField(BaseDataObj):
             2D array of phase values (in nm), mean-subtracted over nonzero amplitude pixels.
         """
         frame = self.field[1] * (self.field[0] > 0).astype(float)
-        idx = self.xp.where(self.field[0] > 0)[0]
+        idx = self.xp.where(self.field[0] > 0)
         # Remove average phase
         frame[idx] -= self.xp.mean(frame[idx])
         return frame
-- 
2.43.0


From 05d1d4aa63cc4caf79a2f7b24df60e8d299277b9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:11:48 +0000
Subject: [PATCH 052/127] fix: size of the atmospheric layers used twice the
 pupil position instead of its square

---
 specula/processing_objects/atmo_evolution.py          | 2 +-
 specula/processing_objects/atmo_infinite_evolution.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/atmo_evolution.py b/specula/processing_objects/atmo_evolution.py
index 6be78cc..76e0cf5 100644
--- a/specula/processing_objects/atmo_evolution.py
+++ b/specula/processing_objects/atmo_evolution.py
@@ -107,7 +107,7 @@ class AtmoEvolution(BaseProcessingObj):
         fov_rad = fov * ASEC2RAD
         self.pixel_layer = np.ceil(
             (self.pixel_pupil \
-                + 2 * np.sqrt(np.sum(np.array(pupil_position, dtype=self.dtype) * 2)) \
+                + 2 * np.sqrt(np.sum(np.array(pupil_position, dtype=self.dtype) ** 2)) \
                 / self.pixel_pitch \
                 + abs(self.pupil_distances) / self.pixel_pitch * fov_rad) / 2.0
         ) * 2.0
diff --git a/specula/processing_objects/atmo_infinite_evolution.py b/specula/processing_objects/atmo_infinite_evolution.py
index e78b4eb..3745efa 100644
--- a/specula/processing_objects/atmo_infinite_evolution.py
+++ b/specula/processing_objects/atmo_infinite_evolution.py
@@ -117,7 +117,7 @@ class AtmoInfiniteEvolution(BaseProcessingObj):
         # Compute layers dimension in pixels
         self.pixel_layer_size = np.ceil(
             (self.pixel_pupil \
-                + 2 * np.sqrt(np.sum(np.array(pupil_position, dtype=self.dtype) * 2)) \
+                + 2 * np.sqrt(np.sum(np.array(pupil_position, dtype=self.dtype) ** 2)) \
                 / self.pixel_pitch \
                 + 2.0 * abs(self.pupil_distances) / self.pixel_pitch * rad_alpha_fov) / 2.0
         ) * 2.0
-- 
2.43.0


From db6dc9020daf6c5f5803a267b485fc3841e991d3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:12:05 +0000
Subject: [PATCH 053/127] fix: phase screens computed for another pixel pitch
 or L0 were reused from the cache

---
 specula/lib/phasescreen_manager.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/specula/lib/phasescreen_manager.py b/specula/lib/phasescreen_manager.py
index 715694b..a4bab4f 100644
--- a/specula/lib/phasescreen_manager.py
+++ b/specula/lib/phasescreen_manager.py
@@ -27,20 +27,21 @@ def phasescreens_manager(L0, dimension, pixel_pitch, directory, xp, precision, s
             raise ValueError("The number of elements in L0 must be 1 or the same as the number of seeds!")
 
         # Construct the file names
-        phasescreen_name = f'ps_seed{xp.around(element)}_dim{xp.around(dimension)}_pixpit{pixel_pitch:.3f}_L0{float(L0i):.4f}_{precision_str}.fits'
-        phasescreen_name1 = f'ps_seed{xp.around(element)}_dim{xp.around(dimension)}_pixpit{pixel_pitch:.3f}_L0{xp.around(L0i):.4f}_{precision_str}.fits'
-        phasescreen_name2 = f'ps_seed{float(element)}_dim{xp.around(dimension)}_pixpit{pixel_pitch:.3f}_L0{float(L0i):.4f}_{precision_str}.fits'
-        phasescreen_name3 = f'ps_seed{float(element)}_dim{xp.around(dimension)}_pixpit{pixel_pitch:.3f}_L0{xp.around(L0i):.4f}_{precision_str}.fits'
+        # (a different pixel pitch or L0 must never give the same name)
+        pitch_str = f'{pixel_pitch:.3f}'
+        if float(pitch_str) != float(pixel_pitch):
+            pitch_str = repr(float(pixel_pitch))
+        L0_str = f'{float(L0i):.4f}'
+        if float(L0_str) != float(L0i):
+            L0_str = repr(float(L0i))
+        phasescreen_name = f'ps_seed{xp.around(element)}_dim{xp.around(dimension)}_pixpit{pitch_str}_L0{L0_str}_{precision_str}.fits'
+        phasescreen_name2 = f'ps_seed{float(element)}_dim{xp.around(dimension)}_pixpit{pitch_str}_L0{L0_str}_{precision_str}.fits'
 
         # Check if the phase screen file exists in the directory
         if os.path.exists(os.path.join(directory, phasescreen_name)):
             phasescreen = fits.getdata(os.path.join(directory, phasescreen_name), memmap=True)
-        elif os.path.exists(os.path.join(directory, phasescreen_name1)):
-            phasescreen = fits.getdata(os.path.join(directory, phasescreen_name1), memmap=True)
         elif os.path.exists(os.path.join(directory, phasescreen_name2)):
             phasescreen = fits.getdata(os.path.join(directory, phasescreen_name2), memmap=True)
-        elif os.path.exists(os.path.join(directory, phasescreen_name3)):
-            phasescreen = fits.getdata(os.path.join(directory, phasescreen_name3), memmap=True)
         else:
             # Calculate the phase screen if it does not exist
             print('Calculating phasescreen...')
-- 
2.43.0


From b85765fbae7aad9eec05b2ece4e8c97a3e8a296d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:12:05 +0000
Subject: [PATCH 054/127] fix: AtmoRandomPhase changed the seed at every step
 after the last screen when update_interval > 1

---
 specula/processing_objects/atmo_random_phase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specula/processing_objects/atmo_random_phase.py b/specula/processing_objects/atmo_random_phase.py
index 1caa058..f966767 100644
--- a/specula/processing_objects/atmo_random_phase.py
+++ b/specula/processing_objects/atmo_random_phase.py
@@ -196,6 +196,7 @@ class AtmoRandomPhase(BaseProcessingObj):
             self.seed += 1
             self.initScreens()
             self.new_position = 0
+            self.last_position = 0
 
     def trigger_code(self):
         current_phase = self.phasescreens[self.new_position,:,:] * self.scale_coeff
-- 
2.43.0


From e7f6b75832c0e4b59c3c6e80686de8ff7714bf20 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:12:18 +0000
Subject: [PATCH 055/127] fix: AtmoInfiniteEvolution extrapolated the screens
 between pixels with diagonal winds

---
 .../atmo_infinite_evolution.py                | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/specula/processing_objects/atmo_infinite_evolution.py b/specula/processing_objects/atmo_infinite_evolution.py
index 3745efa..cad9649 100644
--- a/specula/processing_objects/atmo_infinite_evolution.py
+++ b/specula/processing_objects/atmo_infinite_evolution.py
@@ -289,17 +289,22 @@ class AtmoInfiniteEvolution(BaseProcessingObj):
             srf = 1 if frac_rows > 0 else 0
             scf = 1 if frac_cols > 0 else 0
 
-            if np.abs(frac_rows) > eps:
-                phase_screen.add_line(1, srf, False)
+            # Bilinear interpolation between the neighbouring integer positions
+            layer_phase = phase_screen0
             if np.abs(frac_cols) > eps:
                 phase_screen.add_line(0, scf, False)
-
-            phase_screen1 = phase_screen.scrnRaw
-            interpfactor = np.sqrt(frac_rows**2 + frac_cols**2)
-
-            # Use the buckup to compute the interpolated phase
-            layer_phase = interpfactor * phase_screen1 \
-                        + (1.0 - interpfactor) * phase_screen0
+                layer_phase = (1.0 - np.abs(frac_cols)) * phase_screen0 \
+                            + np.abs(frac_cols) * phase_screen.scrnRaw
+                phase_screen.full_scrn = phase_screen0_all
+            if np.abs(frac_rows) > eps:
+                phase_screen.add_line(1, srf, False)
+                next_phase = phase_screen.scrnRaw
+                if np.abs(frac_cols) > eps:
+                    phase_screen.add_line(0, scf, False)
+                    next_phase = (1.0 - np.abs(frac_cols)) * next_phase \
+                               + np.abs(frac_cols) * phase_screen.scrnRaw
+                layer_phase = (1.0 - np.abs(frac_rows)) * layer_phase \
+                            + np.abs(frac_rows) * next_phase
 
             # Restore the original state for the next direction
             phase_screen.full_scrn = phase_screen0_all
-- 
2.43.0


From 145e990d7caaeb92a43b961168275f0c04acb414 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:12:32 +0000
Subject: [PATCH 056/127] fix: AtmoInfiniteEvolutionUpDown lost the time offset
 between up and down after the first step

---
 .../atmo_infinite_evolution_up_down.py           | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/specula/processing_objects/atmo_infinite_evolution_up_down.py b/specula/processing_objects/atmo_infinite_evolution_up_down.py
index d2a4c1e..33a9bca 100644
--- a/specula/processing_objects/atmo_infinite_evolution_up_down.py
+++ b/specula/processing_objects/atmo_infinite_evolution_up_down.py
@@ -150,7 +150,10 @@ class AtmoInfiniteEvolutionUpDown(AtmoInfiniteEvolution):
             # Save state
             saved_states = self._save_phase_screen_states()
 
-            # Process up
+            # Process up, starting from where the screens are now
+            self.last_effective_position_up[:] = self.last_effective_position
+            self.acc_rows_up[:] = self.acc_rows
+            self.acc_cols_up[:] = self.acc_cols
             self._process_propagation_direction(
                 wind_speed, wind_direction, delta_position,
                 self.extra_delta_time_up, self.last_position_up,
@@ -172,7 +175,10 @@ class AtmoInfiniteEvolutionUpDown(AtmoInfiniteEvolution):
             # Save state
             saved_states = self._save_phase_screen_states()
 
-            # Process down
+            # Process down, starting from where the screens are now
+            self.last_effective_position[:] = self.last_effective_position_up
+            self.acc_rows[:] = self.acc_rows_up
+            self.acc_cols[:] = self.acc_cols_up
             self._process_propagation_direction(
                 wind_speed, wind_direction, delta_position,
                 self.extra_delta_time_down, self.last_position,
@@ -181,11 +187,7 @@ class AtmoInfiniteEvolutionUpDown(AtmoInfiniteEvolution):
             )
 
             # Restore up state (keep phase screens at up position)
-            # Actually, we want to keep them at down, so restore anyway
-            # No, we should keep the "later" state for next frame
-            # Let's always keep down state
-            if not down_first:
-                pass  # Already at down state
+            self._restore_phase_screen_states(saved_states)
 
         self.last_t = self.current_time
 
-- 
2.43.0


From ccd1c922b043007b750dec8d333dbb2ab69e5c1d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:29:06 +0000
Subject: [PATCH 057/127] fix: SH images were contaminated by other SHs with
 the same FFT size and smaller padding

---
 specula/processing_objects/sh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/specula/processing_objects/sh.py b/specula/processing_objects/sh.py
index e154f70..237636a 100644
--- a/specula/processing_objects/sh.py
+++ b/specula/processing_objects/sh.py
@@ -451,6 +451,10 @@ class SH(BaseProcessingObj):
 
         # Work on SH rows (single-subap code is too inefficient)
 
+        # The padded array is shared with other SHs of the same FFT size,
+        # whose subapertures can cover a different part of it
+        self._wf3[:] = 0
+
         for i in range(self.subap_rows_slice.start, self.subap_rows_slice.stop):
 
             # Extract 2D subap row
-- 
2.43.0


From 49b01be2a53ef9140ab90339ca8c6dacbd362e6d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:29:06 +0000
Subject: [PATCH 058/127] fix: DistributedSH left out the last rows when they
 are not a multiple of n_slices

---
 specula/processing_objects/distributed_sh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/distributed_sh.py b/specula/processing_objects/distributed_sh.py
index 289678e..25f73ff 100644
--- a/specula/processing_objects/distributed_sh.py
+++ b/specula/processing_objects/distributed_sh.py
@@ -39,7 +39,7 @@ class DistributedSH(SH):
         del args['__class__']
 
         # Calculate slices for each SH
-        subaps_per_sh = subap_on_diameter // n_slices
+        bounds = [i * subap_on_diameter // n_slices for i in range(n_slices + 1)]
         del args['n_slices']
 
         # Initialize base class - we do not use the calculation routines,
@@ -48,7 +48,7 @@ class DistributedSH(SH):
 
         self.slices = []
         for i in range(n_slices):
-            self.slices.append(slice( i * subaps_per_sh, (i+1) * subaps_per_sh))
+            self.slices.append(slice(bounds[i], bounds[i+1]))
 
         # Initialize internal SH with the other slices.
         # If using GPUs, each one targets a different device.
-- 
2.43.0


From e19e7bb4ecd25383dbeeb2dd41240e492d00d2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:29:06 +0000
Subject: [PATCH 059/127] fix: DistributedSH failed without an explicit
 target_device_idx

---
 specula/processing_objects/distributed_sh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/distributed_sh.py b/specula/processing_objects/distributed_sh.py
index 25f73ff..40bd082 100644
--- a/specula/processing_objects/distributed_sh.py
+++ b/specula/processing_objects/distributed_sh.py
@@ -55,9 +55,9 @@ class DistributedSH(SH):
         self.sub_sh = []
 
         for i in range(n_slices):
-            if target_device_idx >= 0:
+            if self.target_device_idx >= 0:
                 num_devices = cp.cuda.runtime.getDeviceCount()
-                args['target_device_idx'] = (target_device_idx + i) % num_devices
+                args['target_device_idx'] = (self.target_device_idx + i) % num_devices
             args['subap_rows_slice'] = self.slices[i]
             self.sub_sh.append( SH(**args))
 
-- 
2.43.0


From 3c412465c86ff27ab1a0f36b9491ec66d393444a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:29:06 +0000
Subject: [PATCH 060/127] fix: pyramid with a modulation smaller than 0.25
 lambda/D was tilted instead of modulated

---
 specula/processing_objects/modulated_pyramid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/modulated_pyramid.py b/specula/processing_objects/modulated_pyramid.py
index 35c73e5..dafe986 100644
--- a/specula/processing_objects/modulated_pyramid.py
+++ b/specula/processing_objects/modulated_pyramid.py
@@ -212,7 +212,7 @@ class ModulatedPyramid(BaseProcessingObj):
                 # - a multiple of 4 points for mod_amp > 0
                 # - more than 2*pi*mod_amp points for mod_amp > 0
                 # For example, for mod_amp = 1, we want 8 points
-                mod_step = max([1.0, round(mod_amp * 2.)*4.])
+                mod_step = max([4.0, round(mod_amp * 2.)*4.]) if mod_amp > 0 else 1.0
             else:
                 # In the linear case we want:
                 # - 1 point for mod_amp = 0
-- 
2.43.0


From 1973ec4346c756361a266548b5510eaa41ada93e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:29:06 +0000
Subject: [PATCH 061/127] fix: pyramid with linear modulation of a single step
 failed with a division by zero

---
 specula/processing_objects/modulated_pyramid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/modulated_pyramid.py b/specula/processing_objects/modulated_pyramid.py
index dafe986..bea770d 100644
--- a/specula/processing_objects/modulated_pyramid.py
+++ b/specula/processing_objects/modulated_pyramid.py
@@ -488,7 +488,10 @@ class ModulatedPyramid(BaseProcessingObj):
             for rotation_idx in range(n_rotations):
                 for tt in range(self.mod_steps):
                     # Linear modulation from -mod_amp to +mod_amp
-                    tilt_value = self.mod_amp * (2 * tt / (self.mod_steps - 1) - 1)
+                    if self.mod_steps == 1:
+                        tilt_value = 0.0
+                    else:
+                        tilt_value = self.mod_amp * (2 * tt / (self.mod_steps - 1) - 1)
 
                     if self.mod_type == 'horizontal' or (self.mod_type == 'alternating' and rotation_idx == 1):
                         # Horizontal modulation uses tilt_x
-- 
2.43.0


From b9eebe1f903e395101aee4c4bb32fceebc7dba9a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:29:06 +0000
Subject: [PATCH 062/127] fix: pyramid with edge or tip defects failed

---
 specula/processing_objects/modulated_pyramid.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/specula/processing_objects/modulated_pyramid.py b/specula/processing_objects/modulated_pyramid.py
index bea770d..d1240b4 100644
--- a/specula/processing_objects/modulated_pyramid.py
+++ b/specula/processing_objects/modulated_pyramid.py
@@ -404,21 +404,21 @@ class ModulatedPyramid(BaseProcessingObj):
         dx = self.xp.sqrt(xx ** 2)
         dy = self.xp.sqrt(yy ** 2)
         idx_edge = self.xp.where((dx <= self.pyr_edge_def_ld * self.fft_res / 2) | 
-                            (dy <= self.pyr_edge_def_ld * self.fft_res / 2))[0]
-        if len(idx_edge) > 0:
+                            (dy <= self.pyr_edge_def_ld * self.fft_res / 2))
+        if len(idx_edge[0]) > 0:
             pyr_tlt[idx_edge] = self.xp.max(pyr_tlt) * self.xp.random.rand(len(idx_edge[0]))
             print(f'get_pyr_tlt: {len(idx_edge[0])} pixels set to 0 to consider pyramid imperfect edges')
 
         # distance from tip
         d = self.xp.sqrt(xx ** 2 + yy ** 2)
-        idx_tip = self.xp.where(d <= self.pyr_tip_def_ld * self.fft_res / 2)[0]
-        if len(idx_tip) > 0:
+        idx_tip = self.xp.where(d <= self.pyr_tip_def_ld * self.fft_res / 2)
+        if len(idx_tip[0]) > 0:
             pyr_tlt[idx_tip] = self.xp.max(pyr_tlt) * self.xp.random.rand(len(idx_tip[0]))
             print(f'get_pyr_tlt: {len(idx_tip[0])} pixels set to 0 to consider pyramid imperfect tip')
 
         # distance from tip
-        idx_tip_m = self.xp.where(d <= self.pyr_tip_maya_ld * self.fft_res / 2)[0]
-        if len(idx_tip_m) > 0:
+        idx_tip_m = self.xp.where(d <= self.pyr_tip_maya_ld * self.fft_res / 2)
+        if len(idx_tip_m[0]) > 0:
             pyr_tlt[idx_tip_m] = self.xp.min(pyr_tlt[idx_tip_m])
             print(f'get_pyr_tlt: {len(idx_tip_m[0])} pixels set to 0 to consider pyramid imperfect tip')
 
-- 
2.43.0


From 97fa78608781e848c4d010060a8feb1ab004689d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:29:37 +0000
Subject: [PATCH 063/127] fix: pyramid with a linear modulation smaller than
 0.5 lambda/D was not modulated

---
 specula/processing_objects/modulated_pyramid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/modulated_pyramid.py b/specula/processing_objects/modulated_pyramid.py
index d1240b4..98b682f 100644
--- a/specula/processing_objects/modulated_pyramid.py
+++ b/specula/processing_objects/modulated_pyramid.py
@@ -218,7 +218,7 @@ class ModulatedPyramid(BaseProcessingObj):
                 # - 1 point for mod_amp = 0
                 # - a point in [0, 0] for mod_amp > 0
                 # - more than 2 points for mod_amp > 0
-                mod_step = round(mod_amp)*2.+1.0
+                mod_step = max([1.0, round(mod_amp)])*2.+1.0 if mod_amp > 0 else 1.0
         elif mod_step == 0:
             raise ValueError('mod_step cannot be zero')
         elif mod_step < 0:
-- 
2.43.0


From b537cc4adb5c5efb5e0e99bd29d25810bf6f05c2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:29:37 +0000
Subject: [PATCH 064/127] fix: coronagraphs multiplied the amplitude when the
 input field is interpolated

---
 specula/processing_objects/abstract_coronagraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specula/processing_objects/abstract_coronagraph.py b/specula/processing_objects/abstract_coronagraph.py
index 8d898b9..ea32b94 100644
--- a/specula/processing_objects/abstract_coronagraph.py
+++ b/specula/processing_objects/abstract_coronagraph.py
@@ -165,7 +165,9 @@ class Coronagraph(BaseProcessingObj):
         super().post_trigger()
 
         # Then rebin if needed
+        # (toccd keeps the sum, while the field must keep its mean)
         ef_out = toccd(self.ef_out, self.out_ef.size, xp=self.xp)
+        ef_out = ef_out * (self.pixel_pupil / self.fft_sampling)**2
 
         # Calculate transmission
         # PSF before masking vs PSF after masking
-- 
2.43.0


From 15719d01565b6760c912506906857812751efed9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:29:37 +0000
Subject: [PATCH 065/127] fix: LyotCoronagraph used half of the requested outer
 working angle

---
 specula/processing_objects/lyot_coronagraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/lyot_coronagraph.py b/specula/processing_objects/lyot_coronagraph.py
index 6073f3b..47ed98c 100644
--- a/specula/processing_objects/lyot_coronagraph.py
+++ b/specula/processing_objects/lyot_coronagraph.py
@@ -66,7 +66,8 @@ class LyotCoronagraph(Coronagraph):
         if self._knife_edge:
             fp_mask = make_mask(self.fft_totsize, diaratio=1.0, xc=1.0, xp=self.xp, square=True)
         else:
-            owa_oversampled = self._owa * self.fft_res * self.fov_res \
+            # IWA and OWA are radii
+            owa_oversampled = self._owa * self.fft_res * self.fov_res * 2 \
                               if self._owa is not None else self.fft_totsize
             fp_obsratio = self._iwa * self.fft_res * self.fov_res / owa_oversampled * 2
             fp_diaratio = owa_oversampled / self.fft_totsize
-- 
2.43.0


From f71e2783fcfdf395cd72ab401e357c16a1d33228 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:29:37 +0000
Subject: [PATCH 066/127] fix: LyotCoronagraph ignored the position of the
 knife edge

---
 specula/processing_objects/lyot_coronagraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/lyot_coronagraph.py b/specula/processing_objects/lyot_coronagraph.py
index 47ed98c..6ac0542 100644
--- a/specula/processing_objects/lyot_coronagraph.py
+++ b/specula/processing_objects/lyot_coronagraph.py
@@ -64,7 +64,8 @@ class LyotCoronagraph(Coronagraph):
         # Mask centered on the crosshair between 4 pixels
         # coehrent with center_on_pixel=False in the parent class
         if self._knife_edge:
-            fp_mask = make_mask(self.fft_totsize, diaratio=1.0, xc=1.0, xp=self.xp, square=True)
+            xc = 1.0 + 2 * self._fedge * self.fft_res * self.fov_res / self.fft_totsize
+            fp_mask = make_mask(self.fft_totsize, diaratio=1.0, xc=xc, xp=self.xp, square=True)
         else:
             # IWA and OWA are radii
             owa_oversampled = self._owa * self.fft_res * self.fov_res * 2 \
-- 
2.43.0


From 25b4929298065013699b7f81ffee4fa25474c01e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:29:37 +0000
Subject: [PATCH 067/127] fix: inner pupil stop of the coronagraphs was scaled
 by the outer one

---
 specula/processing_objects/apodizer_coronagraph.py      | 4 +++-
 specula/processing_objects/four_quadrant_coronagraph.py | 4 +++-
 specula/processing_objects/lyot_coronagraph.py          | 4 +++-
 specula/processing_objects/vortex_coronagraph.py        | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/specula/processing_objects/apodizer_coronagraph.py b/specula/processing_objects/apodizer_coronagraph.py
index 10edc51..70140b8 100644
--- a/specula/processing_objects/apodizer_coronagraph.py
+++ b/specula/processing_objects/apodizer_coronagraph.py
@@ -152,8 +152,10 @@ class PAPLCoronagraph(APPCoronagraph):
         return fp_mask
 
     def make_pupil_stop(self):
+        # make_mask wants the obstruction as a ratio of the outer diameter
+        obsratio = self._inPupilStop / self._outPupilStop if self._outPupilStop > 0 else 0.0
         pp_mask = make_mask(self.fft_sampling, diaratio=self._outPupilStop,
-                            obsratio=self._inPupilStop, xp=self.xp)
+                            obsratio=obsratio, xp=self.xp)
         return pp_mask
 
 
diff --git a/specula/processing_objects/four_quadrant_coronagraph.py b/specula/processing_objects/four_quadrant_coronagraph.py
index 3d72e91..4b251d6 100644
--- a/specula/processing_objects/four_quadrant_coronagraph.py
+++ b/specula/processing_objects/four_quadrant_coronagraph.py
@@ -64,7 +64,9 @@ class FourQuadrantCoronagraph(Coronagraph):
         return fp_mask
 
     def make_pupil_plane_mask(self):
+        # make_mask wants the obstruction as a ratio of the outer diameter
+        obsratio = self._inPupilStop / self._outPupilStop if self._outPupilStop > 0 else 0.0
         pp_mask = make_mask(self.fft_sampling, diaratio=self._outPupilStop,
-                            obsratio=self._inPupilStop, xp=self.xp)
+                            obsratio=obsratio, xp=self.xp)
         return pp_mask
     
\ No newline at end of file
diff --git a/specula/processing_objects/lyot_coronagraph.py b/specula/processing_objects/lyot_coronagraph.py
index 6ac0542..560deaf 100644
--- a/specula/processing_objects/lyot_coronagraph.py
+++ b/specula/processing_objects/lyot_coronagraph.py
@@ -77,6 +77,8 @@ class LyotCoronagraph(Coronagraph):
         return fp_mask
 
     def make_pupil_plane_mask(self):
+        # make_mask wants the obstruction as a ratio of the outer diameter
+        obsratio = self._inPupilStop / self._outPupilStop if self._outPupilStop > 0 else 0.0
         pp_mask = make_mask(self.fft_sampling, diaratio=self._outPupilStop,
-                            obsratio=self._inPupilStop, xp=self.xp)
+                            obsratio=obsratio, xp=self.xp)
         return pp_mask
diff --git a/specula/processing_objects/vortex_coronagraph.py b/specula/processing_objects/vortex_coronagraph.py
index 62f70b3..c0eeb8e 100644
--- a/specula/processing_objects/vortex_coronagraph.py
+++ b/specula/processing_objects/vortex_coronagraph.py
@@ -72,7 +72,9 @@ class VortexCoronagraph(Coronagraph):
         return fp_mask
 
     def make_pupil_plane_mask(self):
+        # make_mask wants the obstruction as a ratio of the outer diameter
+        obsratio = self._inPupilStop / self._outPupilStop if self._outPupilStop > 0 else 0.0
         pp_mask = make_mask(self.fft_sampling, diaratio=self._outPupilStop,
-                            obsratio=self._inPupilStop, xp=self.xp)
+                            obsratio=obsratio, xp=self.xp)
         return pp_mask
     
\ No newline at end of file
-- 
2.43.0


From d6bac012e4f91d15c1e71d0342bd7e03b34629ab Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:29:37 +0000
Subject: [PATCH 068/127] fix: PAPLCoronagraph ignored its pupil stop

---
 specula/processing_objects/apodizer_coronagraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/apodizer_coronagraph.py b/specula/processing_objects/apodizer_coronagraph.py
index 70140b8..09d04c3 100644
--- a/specula/processing_objects/apodizer_coronagraph.py
+++ b/specula/processing_objects/apodizer_coronagraph.py
@@ -151,7 +151,7 @@ class PAPLCoronagraph(APPCoronagraph):
                                 obsratio=fp_obsratio, xp=self.xp)
         return fp_mask
 
-    def make_pupil_stop(self):
+    def make_pupil_plane_mask(self):
         # make_mask wants the obstruction as a ratio of the outer diameter
         obsratio = self._inPupilStop / self._outPupilStop if self._outPupilStop > 0 else 0.0
         pp_mask = make_mask(self.fft_sampling, diaratio=self._outPupilStop,
-- 
2.43.0


From 369b1a060d9f475670af2ef14049fdd9946a2373 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:29:37 +0000
Subject: [PATCH 069/127] fix: PAPLCoronagraph focal plane mask had the wrong
 working angles

---
 specula/processing_objects/apodizer_coronagraph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/apodizer_coronagraph.py b/specula/processing_objects/apodizer_coronagraph.py
index 09d04c3..1d8039c 100644
--- a/specula/processing_objects/apodizer_coronagraph.py
+++ b/specula/processing_objects/apodizer_coronagraph.py
@@ -144,8 +144,9 @@ class PAPLCoronagraph(APPCoronagraph):
             xc = 2*(self._fedge * self.fft_res + self.fft_totsize//2)/ self.fft_totsize
             fp_mask = make_mask(self.fft_totsize, diaratio=1.0, xc=xc, xp=self.xp, square=True)
         else:
-            owa_oversampled = self._owa * self.fft_res if self._owa is not None else self.fft_totsize
-            fp_obsratio = self._iwa / owa_oversampled
+            # IWA and OWA are radii
+            owa_oversampled = self._owa * self.fft_res * 2 if self._owa is not None else self.fft_totsize
+            fp_obsratio = self._iwa * self.fft_res * 2 / owa_oversampled
             fp_diaratio = owa_oversampled / self.fft_totsize
             fp_mask = make_mask(self.fft_totsize, diaratio=fp_diaratio,
                                 obsratio=fp_obsratio, xp=self.xp)
-- 
2.43.0


From 67bd7ae74d1fd5e76bb307d445955ba5e9c837fa Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:33:13 +0000
Subject: [PATCH 070/127] fix: FocalPlaneFilter mask was half a pixel off the
 centre of the focal plane

---
 specula/processing_objects/focal_plane_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specula/processing_objects/focal_plane_filter.py b/specula/processing_objects/focal_plane_filter.py
index f63ef8d..c964f6b 100644
--- a/specula/processing_objects/focal_plane_filter.py
+++ b/specula/processing_objects/focal_plane_filter.py
@@ -29,6 +29,7 @@ class FocalPlaneFilter(Coronagraph):
                  fov_errinf=fov_errinf,
                  fov_errsup=fov_errsup,
                  fft_res=fft_res,
+                 center_on_pixel=False,   # like the mask
                  target_device_idx=target_device_idx,
                  precision=precision)
 
-- 
2.43.0


From ab4e8cde15fbd64eb0bf911e1f7a281b7cc9a1ea Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:34:31 +0000
Subject: [PATCH 071/127] fix: FocalPlaneFilter central obstruction had the
 wrong size

---
 specula/processing_objects/focal_plane_filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/focal_plane_filter.py b/specula/processing_objects/focal_plane_filter.py
index c964f6b..4c9f821 100644
--- a/specula/processing_objects/focal_plane_filter.py
+++ b/specula/processing_objects/focal_plane_filter.py
@@ -47,7 +47,8 @@ class FocalPlaneFilter(Coronagraph):
     
     def make_focal_plane_mask(self):
         fp_masking = self.fp_masking / self.fov_res
-        fp_obsratio = self.fp_obs * fp_masking if self.fp_obs else 0
+        # Obstruction diameter (arcsec, like the FoV) as a ratio of the FoV
+        fp_obsratio = self.fp_obs / self.fov if self.fp_obs else 0
         fp_mask = make_mask(self.fft_totsize, diaratio=fp_masking, obsratio=fp_obsratio, xp=self.xp)
         return fp_mask
 
-- 
2.43.0


From 1ea415f61b4ecb9ec672e752282713b85913909d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:36:46 +0000
Subject: [PATCH 072/127] fix: tilts of the polychromatic sensors were larger
 than requested

---
 specula/processing_objects/poly_chrom_wfs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/poly_chrom_wfs.py b/specula/processing_objects/poly_chrom_wfs.py
index e7a4ba0..2880826 100644
--- a/specula/processing_objects/poly_chrom_wfs.py
+++ b/specula/processing_objects/poly_chrom_wfs.py
@@ -71,9 +71,10 @@ class PolyChromWFS(BaseProcessingObj):
         unit_tilt_nm = 1 / nm_to_arcsec
 
         # Create linear tilt phase across pupil
-        # Normalize coordinates to [-2, 2] range
-        xx_norm = 2 * xx / max(abs(xx.max()), abs(xx.min()))
-        yy_norm = 2 * yy / max(abs(yy.max()), abs(yy.min()))
+        # Normalize coordinates to [-2, 2] range at the edges of the pupil
+        # (not at the center of the first and last pixel)
+        xx_norm = 2 * xx / in_ef_pixel_pitch
+        yy_norm = 2 * yy / in_ef_pixel_pitch
 
         # Create unit tilt phases in nm (peak to valley of 4*rms)
         # For linear tilt: peak-valley = 4*rms, so we use 2*rms for amplitude
-- 
2.43.0


From 0ed202d4ed7836fe811ab739884a60b412f01c5c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:54:01 +0000
Subject: [PATCH 073/127] fix: pyramid pupils were smaller and closer than
 requested with large pup_dist

---
 specula/processing_objects/modulated_pyramid.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/modulated_pyramid.py b/specula/processing_objects/modulated_pyramid.py
index 98b682f..99a2e25 100644
--- a/specula/processing_objects/modulated_pyramid.py
+++ b/specula/processing_objects/modulated_pyramid.py
@@ -1,3 +1,5 @@
+import numpy as np
+
 from specula import fuse
 from specula.lib.extrapolation_2d import EFInterpolator
 from specula.lib.interp2d import Interp2D
@@ -341,7 +343,10 @@ class ModulatedPyramid(BaseProcessingObj):
         fft_res = internal_ccd_side / float(pup_diam)
         fft_res_min = (pup_dist + pup_diam) / pup_diam * 1.1
         if fft_res < fft_res_min:
-            fft_res = fft_res_min
+            # The internal CCD must follow the resolution, otherwise the pupils
+            # are smaller and closer to each other than requested
+            internal_ccd_side = int(np.ceil(fft_res_min * pup_diam / 2) * 2)
+            fft_res = internal_ccd_side / float(pup_diam)
 
         result = calc_geometry(
             DpupPix,
-- 
2.43.0


From 783e1c0d4b1618ced06dbd452ff54be0aee87220 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:58:24 +0000
Subject: [PATCH 074/127] fix: ModulatedDoubleRoof accumulated its PSF twice

---
 specula/processing_objects/modulated_double_roof.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/modulated_double_roof.py b/specula/processing_objects/modulated_double_roof.py
index 1ac9f05..d7c612d 100644
--- a/specula/processing_objects/modulated_double_roof.py
+++ b/specula/processing_objects/modulated_double_roof.py
@@ -178,7 +178,8 @@ class ModulatedDoubleRoof(ModulatedPyramid):
             self.roof1_image += pyr1_abs2(pyr_ef_roof1, self.ifft_norm, self.ffv[i], xp=self.xp)
 
             # Process second roof
-            u_fp_roof2 = pyr1_fused(u_fp, self.ffv[i], self.fpsf, self.shifted_masked_exp_roof2, xp=self.xp)
+            # (the focal plane PSF has been already accumulated by the first roof)
+            u_fp_roof2 = u_fp * self.shifted_masked_exp_roof2
             pyr_ef_roof2 = self.xp.fft.ifft2(u_fp_roof2, axes=(-2, -1), norm='forward')
             self.roof2_image += pyr1_abs2(pyr_ef_roof2, self.ifft_norm, self.ffv[i], xp=self.xp)
 
-- 
2.43.0


From 2aa03ec461f9a3d21d26741ff5d2b027ae92a63a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:01:32 +0000
Subject: [PATCH 075/127] fix: ExtSourcePyramid without streams failed or lost
 points when its source gets more points

---
 specula/processing_objects/ext_source_pyramid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/ext_source_pyramid.py b/specula/processing_objects/ext_source_pyramid.py
index d1ebff3..cf737a0 100644
--- a/specula/processing_objects/ext_source_pyramid.py
+++ b/specula/processing_objects/ext_source_pyramid.py
@@ -211,6 +211,7 @@ class ExtSourcePyramid(ModulatedPyramid):
         # Pre-allocate face center coefficients (4 points at pyramid face centers)
         # These will be used to redistribute filtered flux
         self._face_centers_idx = None  # Indices where face centers are stored in coeff array
+        self._coeff_with_face_centers = None  # Array where face centers have been appended
         self._face_centers_ttf = None  # Pre-computed TTF coordinates (initialized in cache_ttexp)
 
         # Add dedicated input for extended source coefficients
@@ -293,7 +294,8 @@ class ExtSourcePyramid(ModulatedPyramid):
             # Check if we need to append face centers
             # (either first time or source was updated and lost them)
             current_size = self.ext_source_coeff.value.shape[0]
-            if self._face_centers_idx is None or self._face_centers_idx[0] >= current_size:
+            # (the source allocates a new array at each update, with any number of points)
+            if self.ext_source_coeff.value is not self._coeff_with_face_centers:
                 # Create face centers with flux initialized to zero
                 face_centers_with_flux = self.xp.hstack([
                     self._face_centers_ttf,
@@ -305,6 +307,7 @@ class ExtSourcePyramid(ModulatedPyramid):
                     self.ext_source_coeff.value,
                     face_centers_with_flux
                 ])
+                self._coeff_with_face_centers = self.ext_source_coeff.value
                 self._face_centers_idx = self.xp.arange(current_size, current_size + 4)
                 self.mod_steps = current_size + 4
             else:
-- 
2.43.0


From c391a69c634d1e875e26c71a6aea60c95de4ec5f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:25:27 +0000
Subject: [PATCH 076/127] fix: an output without value, wired twice to the same
 remote input list, was sent the second time in a format that the receiver
 does not expect

---
 specula/base_processing_obj.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/specula/base_processing_obj.py b/specula/base_processing_obj.py
index 6008f5f..148af5f 100644
--- a/specula/base_processing_obj.py
+++ b/specula/base_processing_obj.py
@@ -169,8 +169,6 @@ class BaseProcessingObj(BaseTimeObj):
             process_comm.Ibsend(cpuArray(buffer), dest=dest_rank, tag=dest_tag)
 
             process_comm.ibsend(item.generation_time, dest=dest_rank, tag=dest_tag+1)
-        if item.get_value() is not None:
-            self.sent_valid[dest_tag] = True
 
     # this method implements the mpi send call of the outputs connected to remote inputs
     def send_outputs(self, skip_delayed=False, delayed_only=False, first_mpi_send=True):
@@ -189,6 +187,7 @@ class BaseProcessingObj(BaseTimeObj):
                 print(process_rank, out_name, out_value, flush=True)
 
         if MPI_DBG: print(process_rank, 'send_outputs', flush=True)
+        now_valid = []
         for out_name, remote_specs in self.remote_outputs.items():
             for remote_spec in remote_specs:
                 dest_rank, dest_tag, delay = remote_spec
@@ -204,6 +203,13 @@ class BaseProcessingObj(BaseTimeObj):
                 # workaround because module objects cannot be pickled
                 for item in self.outputs[out_name] if isinstance(self.outputs[out_name], list) else [self.outputs[out_name]]:
                     self.send_remote_output(item, dest_rank, dest_tag, first_mpi_send, out_name)
+                    if item.get_value() is not None:
+                        now_valid.append(dest_tag)
+
+        # Only now, because the same output can be connected more than once
+        # to the same input list, and thus sent more than once with the same tag
+        for dest_tag in now_valid:
+            self.sent_valid[dest_tag] = True
 
     @classmethod
     def device_stream(cls, target_device_idx):
-- 
2.43.0


From 922e107b969dcc7b0df028c450d0618ac5ad2fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:00:59 +0000
Subject: [PATCH 077/127] fix: ModalAnalysis with a list of fields failed
 looking for the single one

---
 specula/processing_objects/modal_analysis.py | 16 ----------------
 1 file changed, 16 deletions(-)

diff --git a/specula/processing_objects/modal_analysis.py b/specula/processing_objects/modal_analysis.py
index 6269970..51439f7 100644
--- a/specula/processing_objects/modal_analysis.py
+++ b/specula/processing_objects/modal_analysis.py
@@ -176,22 +176,6 @@ class ModalAnalysis(BaseProcessingObj):
         else:
             ef_list = self.in_ef_list
             output_list = self.out_modes_list
-        if self.phase2modes._doZeroPad:
-            m = self.xp.dot(self.in_ef.phaseInNm, self.phase2modes.ifunc_inv)
-        else:
-            if self.wavelengthInNm > 0:
-                phase_in_rad = self.in_ef.phaseInNm * (2 * self.xp.pi / self.wavelengthInNm)
-                phase_in_rad *= self.phase2modes.mask_inf_func.astype(float)
-                phase_in_rad = self.unwrap_2d(phase_in_rad)
-                phase_in_nm = phase_in_rad * (self.wavelengthInNm / (2 * self.xp.pi))
-                ph = phase_in_nm[self.phase2modes.idx_inf_func]
-            else:
-                ph = self.in_ef.phaseInNm[self.phase2modes.idx_inf_func]
-
-            m = self.xp.dot(ph, self.phase2modes.ifunc_inv)
-
-        self.out_modes.value[:] = m
-        self.out_modes.generation_time = self.current_time
 
         for li, current_ef in enumerate(ef_list):
             if self.phase2modes._doZeroPad:
-- 
2.43.0


From 79533eb555c1488c43802ae3736de4aecbdf9293 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:38:35 +0000
Subject: [PATCH 078/127] fix: the two threads of the display server changed
 the order of the data and status items they handed back to each other

---
 specula/lib/display_server_api.py | 763 +++++++++++++++---------------
 1 file changed, 386 insertions(+), 377 deletions(-)

diff --git a/specula/lib/display_server_api.py b/specula/lib/display_server_api.py
index 2012b6b..120fd30 100755
--- a/specula/lib/display_server_api.py
+++ b/specula/lib/display_server_api.py
@@ -1,377 +1,386 @@
-import io
-import os
-import socket
-import threading
-import time
-import queue
-import pickle
-import base64
-import multiprocessing as mp
-
-from flask import Flask, render_template, request
-from flask_socketio import SocketIO, join_room
-import socketio
-import socketio.exceptions
-from specula.display.data_plotter import DataPlotter
-
-if os.name == 'nt':
-    async_mode = 'threading'
-else:
-    try:
-        import eventlet
-        eventlet.monkey_patch()
-        async_mode = 'eventlet'
-    except ImportError:
-        try:
-            import gevent
-            from gevent import monkey
-            monkey.patch_all()
-            async_mode = 'gevent'
-        except ImportError:
-            async_mode = 'threading'
-
-base_dir = os.path.abspath(os.path.dirname(__file__))
-templates_dir = os.path.join(base_dir, "..", "scripts", "templates")
-
-app = Flask('Specula_display_server', template_folder=templates_dir)
-sio = SocketIO(app, cors_allowed_origins="*", async_mode=async_mode)
-
-server = None
-
-def encode(fig):
-    buf = io.BytesIO()
-    fig.savefig(buf, format='png')
-    buf.seek(0)
-    imgB64 = base64.b64encode(buf.getvalue()).decode('utf-8')
-    return imgB64
-
-def filter_params_for_display(params_dict):
-    display_params = {}
-    for k, v in params_dict.items():
-        if 'class' in v:
-            if v['class'] == 'DataStore':
-                continue
-            if 'inputs' not in v and 'outputs' not in v:
-                continue
-        display_params[k] = v
-    return display_params
-
-def setup_image_mode_handlers():
-    @sio.on('connect')
-    def handle_image_connect(*args):        
-        client_id = request.sid
-        server.client_types[client_id] = 'web'
-        
-        display_params = filter_params_for_display(server.params_dict)
-        
-        sio.emit('params', display_params, room=client_id)
-
-    @sio.on('newdata')
-    def handle_image_newdata(args):        
-        client_id = request.sid
-
-        if client_id not in server.t0:
-            server.t0[client_id] = time.time()
-
-        server.request_queue.put((client_id, args))
-        join_room(client_id)
-
-    @sio.on('disconnect')
-    def handle_image_disconnect():        
-        client_id = request.sid
-        if client_id in server.client_types:
-            del server.client_types[client_id]
-        if client_id in server.t0:
-            del server.t0[client_id]
-
-def setup_data_mode_handlers():
-    @sio.on('connect')
-    def handle_data_connect(*args):        
-        client_id = request.sid
-        
-        server.client_types[client_id] = 'dpg'
-        server.client_subscriptions[client_id] = set()
-        
-        display_params = filter_params_for_display(server.params_dict)
-        
-        sio.emit('params', display_params, room=client_id)
-
-    @sio.on('newdata')
-    def handle_data_newdata(args):        
-        client_id = request.sid
-        
-        server.client_subscriptions[client_id] = set(args)
-        
-        if client_id not in server.t0:
-            server.t0[client_id] = time.time()
-
-        server.request_queue.put((client_id, args))
-        server.last_request_time = time.time()
-        server.last_request_outputs = args
-        join_room(client_id)
-
-    @sio.on('disconnect')
-    def handle_data_disconnect():        
-        client_id = request.sid
-        if client_id in server.client_types:
-            del server.client_types[client_id]
-        if client_id in server.t0:
-            del server.t0[client_id]
-        if client_id in server.client_subscriptions:
-            del server.client_subscriptions[client_id]
-
-    @sio.on('get_params')
-    def handle_get_params():        
-        client_id = request.sid
-        
-        display_params = {}
-        for k, v in server.params_dict.items():
-            if 'class' in v:
-                if v['class'] == 'DataStore':
-                    continue
-                if 'inputs' not in v and 'outputs' not in v:
-                    continue
-            display_params[k] = v
-        
-        sio.emit('params', display_params, room=client_id)
-
-    @sio.on('set_client_type')
-    def handle_set_client_type(data):        
-        client_id = request.sid
-        client_type = data.get('type', 'dpg')
-        server.client_types[client_id] = client_type
-
-    @sio.on('unsubscribe')
-    def handle_unsubscribe(data):        
-        client_id = request.sid
-        output_to_unsubscribe = data.get('output')
-        
-        if client_id in server.client_subscriptions and output_to_unsubscribe in server.client_subscriptions[client_id]:
-            server.client_subscriptions[client_id].remove(output_to_unsubscribe)
-
-class FlaskServer:
-    def __init__(self, params_dict: dict,
-                 status_queue: mp.Queue,
-                 request_queue: mp.Queue,
-                 host: str = '0.0.0.0',
-                 port: int = 5000,
-                 ):
-        self.params_dict = params_dict
-        self.t0 = {}
-        self.status_queue = status_queue
-        self.request_queue = request_queue
-        self.plotters = {}
-        self.display_lock = threading.Lock()
-        self.host = host
-        self.port = port
-        self.actual_port = None
-        self.frontend_connected = False
-        self.client_types = {}
-        self.last_request_time = 0
-        self.last_request_outputs = []
-        self.client_subscriptions = {}
-        
-        self.response_handlers = {}
-        self.response_handlers['terminator'] = self.terminator_response_handler
-        self.response_handlers['image_terminator'] = self.terminator_response_handler
-        self.register_additional_response_handlers()
-        self.response_handler_thread = threading.Thread(target=self.handle_responses, daemon=True)
-        self.response_handler_thread.start()
-
-    def register_additional_response_handlers(self):
-        raise NotImplementedError("Subclasses must implement register_additional_response_handlers method")
-    
-    def run(self):
-        t = threading.Thread(target=self.status_update, args=(sio,))
-        t.start()
-
-        if self.port == 0:
-            with socket.socket(socket.AF_INET, socket.SOCK_STREAM) as s:
-                s.bind(('127.0.0.1', 0))
-                address, port = s.getsockname()
-                s.close()
-                self.actual_port = port
-        else:
-            self.actual_port = self.port
-
-        sio.run(app, host=self.host, allow_unsafe_werkzeug=True, port=self.actual_port)
-
-    def shutdown(self):
-        os._exit(0)
-
-    def status_update(self, sio):
-        sio_client = socketio.Client()
-        
-        def connect():
-            if not self.frontend_connected:
-                frontend_port = os.environ.get('SPECULA_PORT', '8080')
-                try:
-                    sio_client.connect(f'http://localhost:{frontend_port}')
-                    self.frontend_connected = True
-                except:
-                    pass
-
-        while True:
-            try:
-                item = self.status_queue.get(timeout=60)
-                
-                if isinstance(item, tuple) and len(item) == 2:
-                    name, data = item
-                    
-                    if name == 'data_response' or name == 'terminator':
-                        self.status_queue.put(item)
-                        continue
- 
-                    if data is None:
-                        break
-                    
-                    try:
-                        connect()
-                        sio_client.emit('simul_update', data={'name': name, 'status': data, 'port': self.actual_port})
-                    except (socketio.exceptions.ConnectionError, socketio.exceptions.BadNamespaceError):
-                        self.frontend_connected = False
-                        time.sleep(1)
-                else:
-                    self.status_queue.put(item)
-                    time.sleep(0.001)
-                    
-            except queue.Empty:
-                # After 60 seconds of inactivity, we assume
-                # that the simulation has ended and we can shut down the server.
-                break
-            except EOFError:
-                # This can happen if the main process has ended and closed the queue.
-                # In that case, we should also shut down the server.
-                break
-            except Exception:
-                break
-        self.shutdown()
-
-    def handle_responses(self):
-        while True:
-            try:
-                item = self.status_queue.get(timeout=1)
-
-                if isinstance(item, tuple) and len(item) == 2:
-                    self.status_queue.put(item)
-                    time.sleep(0.001)
-                    continue
-                
-                elif isinstance(item, tuple) and len(item) == 4:
-                    response_type, client_id, name, data = item
-                    
-                    if response_type not in self.response_handlers:
-                        print(f"[SERVER] No handler for response type: {response_type}")
-                        continue
-
-                    try:
-                        self.response_handlers[response_type](client_id, name, data)
-                    except Exception as e:
-                        print(f"[SERVER][{self.__class__.__name__}] Error handling response of type {response_type} for {name}: {e}")
-                else:
-                    print(f"[SERVER][{self.__class__.__name__}] Unknown item format: {item}")
-                    
-            except queue.Empty:
-                continue
-            except Exception as e:
-                print(f"[SERVER][{self.__class__.__name__}] Error in response handler: {e}")
-                import traceback
-                traceback.print_exc()
-
-    def terminator_response_handler(self, client_id, name, data):
-        if client_id in self.client_types:
-            sio.emit('speed_report', data, room=client_id)
-            t1 = time.time()
-            t0 = self.t0.get(client_id, t1)
-            freq = 1.0 / (t1 - t0) if t1 != t0 else 0
-            sio.emit('done', f'Display rate: {freq:.2f} Hz', room=client_id)
-            self.t0[client_id] = t1
-
-
-class ImageFlaskServer(FlaskServer):
-
-    def image_response_handler(self, client_id, name, data):
-        if client_id in self.client_types:
-            dataobj = pickle.loads(data)
-            with self.display_lock:
-                fig = DataPlotter.plot_best_effort(name, dataobj)
-            sio.emit('plot', {'name': name, 'imgdata': encode(fig)}, room=client_id)
-
-    def register_additional_response_handlers(self):
-        self.response_handlers['image_data'] = self.image_response_handler
-
-
-class DataFlaskServer(FlaskServer):
-        
-    def data_response_handler(self, client_id, name, data):
-        if client_id in self.client_types:
-            try:
-                sio.emit('data_update', {
-                    'name': name,
-                    'data': data
-                }, room=client_id)
-            except Exception as e:
-                print(f"[SERVER][DataMode] Error emitting to {client_id}: {e}")
-    
-    def register_additional_response_handlers(self):
-        self.response_handlers['data_response'] = self.data_response_handler
-
-                    
-def start_server(params_dict, status_queue, request_queue, host, port, mode):
-    global server
-    
-    safe_params_dict = {}
-    for k, v in params_dict.items():
-        if isinstance(v, dict):
-            safe_v = {}
-            for key, val in v.items():
-                if isinstance(val, (str, int, float, bool, type(None), list, dict)):
-                    safe_v[key] = val
-            safe_params_dict[k] = safe_v
-        else:
-            safe_params_dict[k] = v
-    
-    sio.handlers = {}
-    sio.namespace_handlers = {'/': {}}
-    
-    if mode == 'image':
-        server = ImageFlaskServer(
-            params_dict=safe_params_dict,
-            status_queue=status_queue,
-            request_queue=request_queue,
-            host=host,
-            port=port
-        )
-        setup_image_mode_handlers()
-    else:
-        server = DataFlaskServer(
-            params_dict=safe_params_dict,
-            status_queue=status_queue,
-            request_queue=request_queue,
-            host=host,
-            port=port
-        )
-        setup_data_mode_handlers()
-    
-    server.run()
-
-
-@app.route('/')
-def index():
-    return render_template('specula_display.html')
-
-
-@app.route('/status')
-def status():    
-    if not server:
-        return {'status': 'not_initialized'}
-    
-    return {
-        'status': 'running',
-        'mode': 'image' if isinstance(server, ImageFlaskServer) else 'data',
-        'port': server.actual_port if server else 'unknown',
-        'connected_clients': len(server.client_types) if server else 0,
-        'clients': list(server.client_types.items()) if server else [],
-        'status_queue_size': server.status_queue.qsize() if server else 0,
-        'request_queue_size': server.request_queue.qsize() if server else 0
-    }
+import io
+import os
+import socket
+import threading
+import time
+import queue
+import pickle
+import base64
+import multiprocessing as mp
+
+from flask import Flask, render_template, request
+from flask_socketio import SocketIO, join_room
+import socketio
+import socketio.exceptions
+from specula.display.data_plotter import DataPlotter
+
+if os.name == 'nt':
+    async_mode = 'threading'
+else:
+    try:
+        import eventlet
+        eventlet.monkey_patch()
+        async_mode = 'eventlet'
+    except ImportError:
+        try:
+            import gevent
+            from gevent import monkey
+            monkey.patch_all()
+            async_mode = 'gevent'
+        except ImportError:
+            async_mode = 'threading'
+
+base_dir = os.path.abspath(os.path.dirname(__file__))
+templates_dir = os.path.join(base_dir, "..", "scripts", "templates")
+
+app = Flask('Specula_display_server', template_folder=templates_dir)
+sio = SocketIO(app, cors_allowed_origins="*", async_mode=async_mode)
+
+server = None
+
+def encode(fig):
+    buf = io.BytesIO()
+    fig.savefig(buf, format='png')
+    buf.seek(0)
+    imgB64 = base64.b64encode(buf.getvalue()).decode('utf-8')
+    return imgB64
+
+def filter_params_for_display(params_dict):
+    display_params = {}
+    for k, v in params_dict.items():
+        if 'class' in v:
+            if v['class'] == 'DataStore':
+                continue
+            if 'inputs' not in v and 'outputs' not in v:
+                continue
+        display_params[k] = v
+    return display_params
+
+def setup_image_mode_handlers():
+    @sio.on('connect')
+    def handle_image_connect(*args):        
+        client_id = request.sid
+        server.client_types[client_id] = 'web'
+        
+        display_params = filter_params_for_display(server.params_dict)
+        
+        sio.emit('params', display_params, room=client_id)
+
+    @sio.on('newdata')
+    def handle_image_newdata(args):        
+        client_id = request.sid
+
+        if client_id not in server.t0:
+            server.t0[client_id] = time.time()
+
+        server.request_queue.put((client_id, args))
+        join_room(client_id)
+
+    @sio.on('disconnect')
+    def handle_image_disconnect():        
+        client_id = request.sid
+        if client_id in server.client_types:
+            del server.client_types[client_id]
+        if client_id in server.t0:
+            del server.t0[client_id]
+
+def setup_data_mode_handlers():
+    @sio.on('connect')
+    def handle_data_connect(*args):        
+        client_id = request.sid
+        
+        server.client_types[client_id] = 'dpg'
+        server.client_subscriptions[client_id] = set()
+        
+        display_params = filter_params_for_display(server.params_dict)
+        
+        sio.emit('params', display_params, room=client_id)
+
+    @sio.on('newdata')
+    def handle_data_newdata(args):        
+        client_id = request.sid
+        
+        server.client_subscriptions[client_id] = set(args)
+        
+        if client_id not in server.t0:
+            server.t0[client_id] = time.time()
+
+        server.request_queue.put((client_id, args))
+        server.last_request_time = time.time()
+        server.last_request_outputs = args
+        join_room(client_id)
+
+    @sio.on('disconnect')
+    def handle_data_disconnect():        
+        client_id = request.sid
+        if client_id in server.client_types:
+            del server.client_types[client_id]
+        if client_id in server.t0:
+            del server.t0[client_id]
+        if client_id in server.client_subscriptions:
+            del server.client_subscriptions[client_id]
+
+    @sio.on('get_params')
+    def handle_get_params():        
+        client_id = request.sid
+        
+        display_params = {}
+        for k, v in server.params_dict.items():
+            if 'class' in v:
+                if v['class'] == 'DataStore':
+                    continue
+                if 'inputs' not in v and 'outputs' not in v:
+                    continue
+            display_params[k] = v
+        
+        sio.emit('params', display_params, room=client_id)
+
+    @sio.on('set_client_type')
+    def handle_set_client_type(data):        
+        client_id = request.sid
+        client_type = data.get('type', 'dpg')
+        server.client_types[client_id] = client_type
+
+    @sio.on('unsubscribe')
+    def handle_unsubscribe(data):        
+        client_id = request.sid
+        output_to_unsubscribe = data.get('output')
+        
+        if client_id in server.client_subscriptions and output_to_unsubscribe in server.client_subscriptions[client_id]:
+            server.client_subscriptions[client_id].remove(output_to_unsubscribe)
+
+class FlaskServer:
+    def __init__(self, params_dict: dict,
+                 status_queue: mp.Queue,
+                 request_queue: mp.Queue,
+                 host: str = '0.0.0.0',
+                 port: int = 5000,
+                 ):
+        self.params_dict = params_dict
+        self.t0 = {}
+        self.status_queue = status_queue
+        # Status items are forwarded here by handle_responses(), which is the only
+        # reader of status_queue once the server runs: two readers putting back
+        # each other's items would change the order of the items
+        self.simul_status_queue = queue.Queue()
+        self.request_queue = request_queue
+        self.plotters = {}
+        self.display_lock = threading.Lock()
+        self.host = host
+        self.port = port
+        self.actual_port = None
+        self.frontend_connected = False
+        self.client_types = {}
+        self.last_request_time = 0
+        self.last_request_outputs = []
+        self.client_subscriptions = {}
+        
+        self.response_handlers = {}
+        self.response_handlers['terminator'] = self.terminator_response_handler
+        self.response_handlers['image_terminator'] = self.terminator_response_handler
+        self.register_additional_response_handlers()
+        self.response_handler_thread = threading.Thread(target=self.handle_responses, daemon=True)
+        self.response_handler_thread.start()
+
+    def register_additional_response_handlers(self):
+        raise NotImplementedError("Subclasses must implement register_additional_response_handlers method")
+    
+    def run(self):
+        t = threading.Thread(target=self.status_update, args=(sio, self.simul_status_queue))
+        t.start()
+
+        if self.port == 0:
+            with socket.socket(socket.AF_INET, socket.SOCK_STREAM) as s:
+                s.bind(('127.0.0.1', 0))
+                address, port = s.getsockname()
+                s.close()
+                self.actual_port = port
+        else:
+            self.actual_port = self.port
+
+        sio.run(app, host=self.host, allow_unsafe_werkzeug=True, port=self.actual_port)
+
+    def shutdown(self):
+        os._exit(0)
+
+    def status_update(self, sio, status_queue=None):
+        sio_client = socketio.Client()
+        if status_queue is None:
+            status_queue = self.status_queue
+        
+        def connect():
+            if not self.frontend_connected:
+                frontend_port = os.environ.get('SPECULA_PORT', '8080')
+                try:
+                    sio_client.connect(f'http://localhost:{frontend_port}')
+                    self.frontend_connected = True
+                except:
+                    pass
+
+        while True:
+            try:
+                item = status_queue.get(timeout=60)
+                
+                if isinstance(item, tuple) and len(item) == 2:
+                    name, data = item
+                    
+                    if name == 'data_response' or name == 'terminator':
+                        status_queue.put(item)
+                        continue
+ 
+                    if data is None:
+                        break
+                    
+                    try:
+                        connect()
+                        sio_client.emit('simul_update', data={'name': name, 'status': data, 'port': self.actual_port})
+                    except (socketio.exceptions.ConnectionError, socketio.exceptions.BadNamespaceError):
+                        self.frontend_connected = False
+                        time.sleep(1)
+                else:
+                    status_queue.put(item)
+                    time.sleep(0.001)
+                    
+            except queue.Empty:
+                # After 60 seconds of inactivity, we assume
+                # that the simulation has ended and we can shut down the server.
+                break
+            except EOFError:
+                # This can happen if the main process has ended and closed the queue.
+                # In that case, we should also shut down the server.
+                break
+            except Exception:
+                break
+        self.shutdown()
+
+    def handle_responses(self):
+        while True:
+            try:
+                item = self.status_queue.get(timeout=1)
+
+                if isinstance(item, tuple) and len(item) == 2:
+                    self.simul_status_queue.put(item)
+                    continue
+                
+                elif isinstance(item, tuple) and len(item) == 4:
+                    response_type, client_id, name, data = item
+                    
+                    if response_type not in self.response_handlers:
+                        print(f"[SERVER] No handler for response type: {response_type}")
+                        continue
+
+                    try:
+                        self.response_handlers[response_type](client_id, name, data)
+                    except Exception as e:
+                        print(f"[SERVER][{self.__class__.__name__}] Error handling response of type {response_type} for {name}: {e}")
+                else:
+                    print(f"[SERVER][{self.__class__.__name__}] Unknown item format: {item}")
+                    
+            except queue.Empty:
+                continue
+            except EOFError:
+                # The main process has closed the queue: let the status thread shut down
+                self.simul_status_queue.put(('', None))
+                break
+            except Exception as e:
+                print(f"[SERVER][{self.__class__.__name__}] Error in response handler: {e}")
+                import traceback
+                traceback.print_exc()
+
+    def terminator_response_handler(self, client_id, name, data):
+        if client_id in self.client_types:
+            sio.emit('speed_report', data, room=client_id)
+            t1 = time.time()
+            t0 = self.t0.get(client_id, t1)
+            freq = 1.0 / (t1 - t0) if t1 != t0 else 0
+            sio.emit('done', f'Display rate: {freq:.2f} Hz', room=client_id)
+            self.t0[client_id] = t1
+
+
+class ImageFlaskServer(FlaskServer):
+
+    def image_response_handler(self, client_id, name, data):
+        if client_id in self.client_types:
+            dataobj = pickle.loads(data)
+            with self.display_lock:
+                fig = DataPlotter.plot_best_effort(name, dataobj)
+            sio.emit('plot', {'name': name, 'imgdata': encode(fig)}, room=client_id)
+
+    def register_additional_response_handlers(self):
+        self.response_handlers['image_data'] = self.image_response_handler
+
+
+class DataFlaskServer(FlaskServer):
+        
+    def data_response_handler(self, client_id, name, data):
+        if client_id in self.client_types:
+            try:
+                sio.emit('data_update', {
+                    'name': name,
+                    'data': data
+                }, room=client_id)
+            except Exception as e:
+                print(f"[SERVER][DataMode] Error emitting to {client_id}: {e}")
+    
+    def register_additional_response_handlers(self):
+        self.response_handlers['data_response'] = self.data_response_handler
+
+                    
+def start_server(params_dict, status_queue, request_queue, host, port, mode):
+    global server
+    
+    safe_params_dict = {}
+    for k, v in params_dict.items():
+        if isinstance(v, dict):
+            safe_v = {}
+            for key, val in v.items():
+                if isinstance(val, (str, int, float, bool, type(None), list, dict)):
+                    safe_v[key] = val
+            safe_params_dict[k] = safe_v
+        else:
+            safe_params_dict[k] = v
+    
+    sio.handlers = {}
+    sio.namespace_handlers = {'/': {}}
+    
+    if mode == 'image':
+        server = ImageFlaskServer(
+            params_dict=safe_params_dict,
+            status_queue=status_queue,
+            request_queue=request_queue,
+            host=host,
+            port=port
+        )
+        setup_image_mode_handlers()
+    else:
+        server = DataFlaskServer(
+            params_dict=safe_params_dict,
+            status_queue=status_queue,
+            request_queue=request_queue,
+            host=host,
+            port=port
+        )
+        setup_data_mode_handlers()
+    
+    server.run()
+
+
+@app.route('/')
+def index():
+    return render_template('specula_display.html')
+
+
+@app.route('/status')
+def status():    
+    if not server:
+        return {'status': 'not_initialized'}
+    
+    return {
+        'status': 'running',
+        'mode': 'image' if isinstance(server, ImageFlaskServer) else 'data',
+        'port': server.actual_port if server else 'unknown',
+        'connected_clients': len(server.client_types) if server else 0,
+        'clients': list(server.client_types.items()) if server else [],
+        'status_queue_size': server.status_queue.qsize() if server else 0,
+        'request_queue_size': server.request_queue.qsize() if server else 0
+    }
-- 
2.43.0


From 0046f82587b06f97c440ca2cfe6541c37b1d826f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:38:35 +0000
Subject: [PATCH 079/127] fix: displaying a data object that cannot be pickled
 left it without its xp module

---
 specula/processing_objects/display_server.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/display_server.py b/specula/processing_objects/display_server.py
index 7521a52..8070f13 100644
--- a/specula/processing_objects/display_server.py
+++ b/specula/processing_objects/display_server.py
@@ -375,8 +375,10 @@ def remove_xp_np(obj):
             setattr(obj, k, v)
 
     deleted = _remove(obj)    
-    yield obj
-    _putback((obj, deleted))
+    try:
+        yield obj
+    finally:
+        _putback((obj, deleted))
 
 
 def encode(fig):
-- 
2.43.0


From 84f5613f4fb0cd096ab135d890904c2790126f84 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:57:32 +0000
Subject: [PATCH 080/127] fix: data objects holding other data objects (pupil
 stops) could not be displayed

---
 specula/processing_objects/display_server.py | 36 +++++++++-----------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/specula/processing_objects/display_server.py b/specula/processing_objects/display_server.py
index 8070f13..fd5789e 100644
--- a/specula/processing_objects/display_server.py
+++ b/specula/processing_objects/display_server.py
@@ -10,6 +10,7 @@ from contextlib import contextmanager
 
 from flask_socketio import SocketIO
 
+from specula.base_data_obj import BaseDataObj
 from specula.base_value import BaseValue
 from specula.base_processing_obj import BaseProcessingObj, InputDesc, OutputDesc
 
@@ -348,37 +349,34 @@ def remove_xp_np(obj):
     '''Temporarily remove any instance of xp and np modules
     The removed modules are put back when exiting the context manager.
  
-    Works recursively on object lists
+    Works recursively on object lists and on the data objects
+    that are attributes of other data objects
     '''
+    deleted = []
+
     def _remove(obj):
-        attrnames = ['xp', 'np']
         # Recurse into lists
         if isinstance(obj, list):
-            return list(map(_remove, obj))
+            for x in obj:
+                _remove(x)
+            return
 
-        # Remove xp and np and return the deleted ones
-        deleted = {}
-        for attrname in attrnames:
+        # Remove xp and np and remember the deleted ones
+        for attrname in ['xp', 'np']:
             if hasattr(obj, attrname):
-                deleted[attrname] = getattr(obj, attrname)
+                deleted.append((obj, attrname, getattr(obj, attrname)))
                 delattr(obj, attrname)
-        return deleted
-
-    def _putback(args):
-        obj, deleted = args
 
-        # Recurse into lists
-        if isinstance(obj, list):
-            _ = list(map(_putback, zip(obj, deleted)))
-            return
-        for k, v in deleted.items():
-            setattr(obj, k, v)
+        for x in list(getattr(obj, '__dict__', {}).values()):
+            if isinstance(x, BaseDataObj) and hasattr(x, 'xp'):
+                _remove(x)
 
-    deleted = _remove(obj)    
     try:
+        _remove(obj)
         yield obj
     finally:
-        _putback((obj, deleted))
+        for owner, attrname, value in deleted:
+            setattr(owner, attrname, value)
 
 
 def encode(fig):
-- 
2.43.0


From fd99b938b97908ceea168edc8def7065cc75073d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:57:32 +0000
Subject: [PATCH 081/127] fix: maps of slopes from intensity were displayed as
 a vector

---
 specula/data_objects/slopes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specula/data_objects/slopes.py b/specula/data_objects/slopes.py
index 9636c9c..143c6b2 100644
--- a/specula/data_objects/slopes.py
+++ b/specula/data_objects/slopes.py
@@ -278,4 +278,6 @@ class Slopes(BaseDataObj):
         return slopes
 
     def array_for_display(self):
-        return self.xp.hstack(self.get2d())
+        frame = self.get2d()
+        # A single map for slopes from intensity, x and y maps otherwise
+        return frame if frame.ndim == 2 else self.xp.hstack(frame)
-- 
2.43.0


From a2dd11bd231fb26b311a1183c41016ca70b22d58 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 23:58:17 +0000
Subject: [PATCH 082/127] fix: slopes of Zernike and curvature sensors, which
 use the whole frame, had the mask of a quarter of it

---
 specula/processing_objects/cur_wfs_slopec.py | 2 +-
 specula/processing_objects/zwfs_slopec.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/cur_wfs_slopec.py b/specula/processing_objects/cur_wfs_slopec.py
index bb864a1..5f1233b 100644
--- a/specula/processing_objects/cur_wfs_slopec.py
+++ b/specula/processing_objects/cur_wfs_slopec.py
@@ -76,7 +76,7 @@ class CurWfsSlopec(Slopec):
         self.outputs['out_pupdata'] = self.pupdata
 
         # Setup slopes display mapping (using the first pupdata as geometric reference)
-        self.slopes.single_mask = self.pupdata.single_mask()
+        self.slopes.single_mask = self.pupdata.complete_mask()
         self.slopes.display_map = self.pupdata.display_map
 
         self.flat_p1 = None
diff --git a/specula/processing_objects/zwfs_slopec.py b/specula/processing_objects/zwfs_slopec.py
index 3e066d3..129e399 100644
--- a/specula/processing_objects/zwfs_slopec.py
+++ b/specula/processing_objects/zwfs_slopec.py
@@ -54,7 +54,7 @@ class ZwfsSlopec(Slopec):
 
         self.outputs['out_pupdata'] = self.pupdata
         
-        self.slopes.single_mask = self.pupdata.single_mask() # unsure if this is needed
+        self.slopes.single_mask = self.pupdata.complete_mask() # unsure if this is needed
         self.slopes.display_map = self.pupdata.display_map # unsure if this is needed
 
         all_idx = self.pupdata.pupil_idx(0).astype(self.xp.int64)
-- 
2.43.0


From 32955a5493f8b2de2823a022b9c6d8fe06e0875d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:00:27 +0000
Subject: [PATCH 083/127] fix: the display kept axes, texts and sizes of the
 first value plotted under a name

---
 specula/display/data_plotter.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/specula/display/data_plotter.py b/specula/display/data_plotter.py
index 6de3921..f4a383b 100644
--- a/specula/display/data_plotter.py
+++ b/specula/display/data_plotter.py
@@ -22,6 +22,7 @@ class DataPlotter():
         self._title = title
         self._w_is_set = False
         self._first = True
+        self._kind = None
         self._disp_factor = disp_factor
 
     def set_w(self, size_frame=None, nframes=1):
@@ -38,6 +39,16 @@ class DataPlotter():
   
         self._w_is_set = True
 
+    def set_kind(self, *kind):
+        '''
+        Start from an empty figure when what must be plotted
+        does not fit in the current one
+        '''
+        if kind != self._kind:
+            self._kind = kind
+            self._w_is_set = False
+            self._first = True
+
     def multi_plot(self, obj_list):
         '''
         Plot a list of data objects one next to the other.
@@ -94,6 +105,7 @@ class DataPlotter():
             self._history[:-1] = self._history[1:]
             self._count = n - 1
 
+        self.set_kind('history')
         self.set_w()
         self._history[self._count] = value
         self._count += 1
@@ -107,21 +119,23 @@ class DataPlotter():
         else:
             self.line[0].set_xdata(x)
             self.line[0].set_ydata(y)
-            self.ax[0].set_xlim(x.min(), x.max())
-            self.ax[0].set_ylim(y.min(), y.max())
+            self.ax[0].relim()
+            self.ax[0].autoscale_view()
         self.fig.canvas.draw()
         return self.fig
 
     def plot_vector(self, vector):
+        self.set_kind('vector', len(vector))
         self.set_w()
 
         if self._first:
             self._line = self.ax[0].plot(vector, '.-')
             self.fig.suptitle(self._title)
-            self.ax[0].set_ylim([vector.min(), vector.max()])
             self._first = False
         else:
             self._line[0].set_ydata(vector)
+        self.ax[0].relim()
+        self.ax[0].autoscale_view()
         return self.fig
 
     def imshow(self, frames):
@@ -130,6 +144,7 @@ class DataPlotter():
         else:
             size_frame = self._wsize
 
+        self.set_kind('image', *[frame.shape for frame in frames])
         self.set_w(size_frame, len(frames))
 
         if self._first:
@@ -145,13 +160,12 @@ class DataPlotter():
         return self.fig
 
     def plot_text(self, text):
+        self.set_kind('text', text)
         self.set_w()
 
         if self._first:
             self.text = self.ax[0].text(0, 0, text, fontsize=14)
-        else:
-            del self.text
-            self.text = self.ax[0].text(0, 0, text, fontsize=14)
+            self._first = False
         self.fig.canvas.draw()
         return self.fig
 
-- 
2.43.0


From 4492f84b0d33a48ecab95ecf7fe6872bfcf23880 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:02:19 +0000
Subject: [PATCH 084/127] fix: vectors of one element could not be displayed

---
 specula/display/data_plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/display/data_plotter.py b/specula/display/data_plotter.py
index f4a383b..301bb56 100644
--- a/specula/display/data_plotter.py
+++ b/specula/display/data_plotter.py
@@ -107,7 +107,7 @@ class DataPlotter():
 
         self.set_kind('history')
         self.set_w()
-        self._history[self._count] = value
+        self._history[self._count] = np.asarray(value).item()
         self._count += 1
 
         x = np.arange(self._count)
-- 
2.43.0


From 77b4c0e47d3dd3eb927c4d2a78bf7f4f854cf307 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:44:57 +0000
Subject: [PATCH 085/127] fix: kernels loaded from their cache file were always
 transformed

---
 specula/data_objects/convolution_kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/data_objects/convolution_kernel.py b/specula/data_objects/convolution_kernel.py
index 334571b..5047386 100644
--- a/specula/data_objects/convolution_kernel.py
+++ b/specula/data_objects/convolution_kernel.py
@@ -362,7 +362,7 @@ class ConvolutionKernel(BaseDataObj):
             if os.path.exists(full_path):
                 print(f"Loading kernel from {full_path}")
                 self.restore(full_path, kernel_obj=self, target_device_idx=self.target_device_idx,
-                             return_fft=True)
+                             return_fft=self.return_fft)
             else:
                 print('Calculating kernel...')
                 self.calculate_lgs_map()
-- 
2.43.0


From ababd1536b7ba13d696d0042a8fc9aacb4378688 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:44:57 +0000
Subject: [PATCH 086/127] fix: a gaussian kernel could not be loaded again
 after another one

---
 specula/data_objects/gaussian_convolution_kernel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/specula/data_objects/gaussian_convolution_kernel.py b/specula/data_objects/gaussian_convolution_kernel.py
index 8a41d35..cc93276 100644
--- a/specula/data_objects/gaussian_convolution_kernel.py
+++ b/specula/data_objects/gaussian_convolution_kernel.py
@@ -103,6 +103,13 @@ class GaussianConvolutionKernel(ConvolutionKernel):
             kernel_obj.oversampling = hdr['OVERSAMP']
             kernel_obj.positive_shift_tt = hdr['POSTT']
 
+        # Reallocate real_kernels if it was deallocated
+        if kernel_obj.real_kernels is None:
+            kernel_obj.real_kernels = kernel_obj.xp.zeros(
+                (kernel_obj.dimx * kernel_obj.dimy, kernel_obj.dimension, kernel_obj.dimension),
+                dtype=kernel_obj.dtype
+            )
+
         # This code uses an intermediate array to make sure that endianess is correct (FITS is big-endian)
         data = kernel_obj.xp.array(fits.getdata(filename, ext=1), dtype=kernel_obj.dtype)
         kernel_obj.real_kernels[:] = data
-- 
2.43.0


From 78e8e7591ee5c4e0788ed95c4e003e424a77a0ed Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:44:57 +0000
Subject: [PATCH 087/127] fix: a cached screen or kernel was visible to other
 runs before it was complete

---
 specula/data_objects/convolution_kernel.py |  3 ++-
 specula/lib/phasescreen_manager.py         |  7 ++++---
 specula/lib/utils.py                       | 23 ++++++++++++++++++++++
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/specula/data_objects/convolution_kernel.py b/specula/data_objects/convolution_kernel.py
index 5047386..a28c962 100644
--- a/specula/data_objects/convolution_kernel.py
+++ b/specula/data_objects/convolution_kernel.py
@@ -8,6 +8,7 @@ from astropy.io import fits
 from specula import cpuArray, ASEC2RAD
 from specula.base_data_obj import BaseDataObj
 from specula.lib.rebin import rebin2d
+from specula.lib.utils import write_complete
 
 
 def lgs_map_sh(nsh, diam, rl, zb, dz, profz, fwhmb, ps, ssp,
@@ -333,7 +334,7 @@ class ConvolutionKernel(BaseDataObj):
 
         # Create an HDUList and write to file
         hdul = fits.HDUList([primary_hdu, kernel_hdu])
-        hdul.writeto(filename, overwrite=True)
+        write_complete(filename, hdul.writeto)
         hdul.close()  # Force close for Windows
 
     def prepare_for_sh(self, sodium_altitude=None, sodium_intensity=None, current_time=None):
diff --git a/specula/lib/phasescreen_manager.py b/specula/lib/phasescreen_manager.py
index a4bab4f..50dec37 100644
--- a/specula/lib/phasescreen_manager.py
+++ b/specula/lib/phasescreen_manager.py
@@ -4,6 +4,7 @@ from specula import cpuArray
 from astropy.io import fits
 
 from specula.lib.calc_phasescreen import calc_phasescreen
+from specula.lib.utils import write_complete
 
 def phasescreens_manager(L0, dimension, pixel_pitch, directory, xp, precision, seed=None, verbose=False):
     if seed is None:
@@ -12,8 +13,7 @@ def phasescreens_manager(L0, dimension, pixel_pitch, directory, xp, precision, s
     precision_str = 'single' if precision==1 else 'double'
 
     # Ensure the directory exists
-    if not os.path.exists(directory):
-        os.makedirs(directory)
+    os.makedirs(directory, exist_ok=True)
 
     # List to store phase screens
     phasescreens = []
@@ -46,7 +46,8 @@ def phasescreens_manager(L0, dimension, pixel_pitch, directory, xp, precision, s
             # Calculate the phase screen if it does not exist
             print('Calculating phasescreen...')
             phasescreen = calc_phasescreen(L0i, dimension, pixel_pitch, seed=element, precision=precision, verbose=verbose, xp=xp)
-            fits.writeto(os.path.join(directory, phasescreen_name), cpuArray(phasescreen), overwrite=True)
+            write_complete(os.path.join(directory, phasescreen_name),
+                           lambda fn: fits.writeto(fn, cpuArray(phasescreen)))
             print('Done')
         
         # Add the phase screen to the list
diff --git a/specula/lib/utils.py b/specula/lib/utils.py
index 20f2d32..2e95983 100644
--- a/specula/lib/utils.py
+++ b/specula/lib/utils.py
@@ -1,5 +1,7 @@
+import os
 import re
 import time
+import uuid
 import typing
 import importlib
 import warnings
@@ -22,6 +24,27 @@ def camelcase_to_snakecase(s):
     return ''.join([x.lower() for x in result])
 
 
+def write_complete(filename, writer):
+    '''
+    Write a file that other processes may be reading or writing at the same time:
+    *filename* appears only when it is complete, even if this process is interrupted.
+
+    Parameters
+    ----------
+    filename : str
+        The name of the file.
+    writer : callable
+        Function called with the (temporary) filename to write to.
+    '''
+    tmp_filename = f'{filename}.{uuid.uuid4().hex}.tmp'
+    try:
+        writer(tmp_filename)
+        os.replace(tmp_filename, filename)
+    finally:
+        if os.path.exists(tmp_filename):
+            os.remove(tmp_filename)
+
+
 def import_class(classname, additional_modules=None):
     '''
     Dynamically import a class by name from the appropriate specula submodule.
-- 
2.43.0


From f47acfc7837d703856ea059a1b1b88ea86fe72df Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:44:57 +0000
Subject: [PATCH 088/127] fix: two data stores could fail when creating their
 folders at the same time

---
 specula/processing_objects/data_store.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/data_store.py b/specula/processing_objects/data_store.py
index 4311d66..7dda0fd 100644
--- a/specula/processing_objects/data_store.py
+++ b/specula/processing_objects/data_store.py
@@ -201,9 +201,11 @@ class DataStore(BaseProcessingObj):
             fullpath = os.path.join(self.tn_dir_orig, tn) + suffix
             if iter is not None:
                 fullpath += f'.{iter}'
-            if not os.path.exists(fullpath):
+            try:
                 os.makedirs(fullpath)
                 break
+            except FileExistsError:
+                pass
             if iter is None:
                 iter = 0
             else:
-- 
2.43.0


From c9daa9402e365e06812e432ec87fda7bf4057f07 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:47:17 +0000
Subject: [PATCH 089/127] fix: kernels of a single lens

---
 specula/data_objects/convolution_kernel.py          | 8 ++++++--
 specula/data_objects/gaussian_convolution_kernel.py | 1 -
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/specula/data_objects/convolution_kernel.py b/specula/data_objects/convolution_kernel.py
index a28c962..0bdba41 100644
--- a/specula/data_objects/convolution_kernel.py
+++ b/specula/data_objects/convolution_kernel.py
@@ -47,8 +47,12 @@ def lgs_map_sh(nsh, diam, rl, zb, dz, profz, fwhmb, ps, ssp,
     # Oversampling and lenslet grid setup
     ossp = ssp * overs
 
-    xsh, ysh = xp.meshgrid(xp.linspace(-diam / 2, diam / 2, nsh, dtype=dtype),
-                           xp.linspace(-diam / 2, diam / 2, nsh, dtype=dtype))
+    if nsh > 1:
+        sh_pos = xp.linspace(-diam / 2, diam / 2, nsh, dtype=dtype)
+    else:
+        # A single lens is in the centre of the pupil
+        sh_pos = xp.zeros(1, dtype=dtype)
+    xsh, ysh = xp.meshgrid(sh_pos, sh_pos)
     xfov, yfov = xp.meshgrid(xp.linspace(-ssp * ps / 2, ssp * ps / 2, ossp, dtype=dtype),
                              xp.linspace(-ssp * ps / 2, ssp * ps / 2, ossp, dtype=dtype))
     # Gaussian parameters for the sodium layer
diff --git a/specula/data_objects/gaussian_convolution_kernel.py b/specula/data_objects/gaussian_convolution_kernel.py
index cc93276..43a96c4 100644
--- a/specula/data_objects/gaussian_convolution_kernel.py
+++ b/specula/data_objects/gaussian_convolution_kernel.py
@@ -43,7 +43,6 @@ class GaussianConvolutionKernel(ConvolutionKernel):
         """
         Recalculates the Gaussian kernel based on current settings.
         """
-        self.dimx = max(self.dimx, 2)
         lgs_tt = [-0.5, -0.5] if not self.positive_shift_tt else [0.5, 0.5]
         self.lgs_tt = [x * self.pxscale for x in lgs_tt]
         items = [
-- 
2.43.0


From 45bb768bc93ebf9e0707ab1739412557ba273bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:59:30 +0000
Subject: [PATCH 090/127] fix: DistributedSH refused the sodium inputs of its
 laser launch telescope

---
 specula/processing_objects/distributed_sh.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/distributed_sh.py b/specula/processing_objects/distributed_sh.py
index 40bd082..2d31992 100644
--- a/specula/processing_objects/distributed_sh.py
+++ b/specula/processing_objects/distributed_sh.py
@@ -1,6 +1,7 @@
 import copy
 
 from specula.base_processing_obj import BaseProcessingObj, InputDesc, OutputDesc
+from specula.base_value import BaseValue
 from specula.data_objects.electric_field import ElectricField
 from specula.data_objects.intensity import Intensity
 from specula.data_objects.laser_launch_telescope import LaserLaunchTelescope
@@ -63,7 +64,9 @@ class DistributedSH(SH):
 
     @classmethod
     def input_names(cls):
-        return {'in_ef': InputDesc(ElectricField, 'Input electric field from the telescope pupil')}
+        return {'in_ef': InputDesc(ElectricField, 'Input electric field from the telescope pupil'),
+                'sodium_altitude': InputDesc(BaseValue, 'Sodium layer altitudes, with a laser launch telescope (optional)'),
+                'sodium_intensity': InputDesc(BaseValue, 'Sodium layer intensities, with a laser launch telescope (optional)')}
 
     @classmethod
     def output_names(cls):
-- 
2.43.0


From e7ef3b1df8b5dcb4aff61ea5afb421f932c98963 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:24:19 +0000
Subject: [PATCH 091/127] fix: a wrong interactive input stopped the dynamic
 calibrators

---
 specula/processing_objects/dynamic_dark_calibrator.py       | 4 ++--
 .../processing_objects/dynamic_pyr_pupdata_calibrator.py    | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/specula/processing_objects/dynamic_dark_calibrator.py b/specula/processing_objects/dynamic_dark_calibrator.py
index 2c72a1b..590dbf0 100644
--- a/specula/processing_objects/dynamic_dark_calibrator.py
+++ b/specula/processing_objects/dynamic_dark_calibrator.py
@@ -193,7 +193,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
                     raise ValueError(f'Number of frames is {nframes} and must be greater than zero')
                 self.nframes = nframes
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {e.__class__.__name__}: {e}')
 
         try:
             input_load = self.local_inputs['in_load']
@@ -205,7 +205,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
                 self.darkframe.restore(fullpath)
                 self.darkframe.generation_time = self.current_time
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {e.__class__.__name__}: {e}')
 
     def post_trigger(self):
         super().post_trigger()
diff --git a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
index cb6df5a..3422456 100644
--- a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
@@ -129,21 +129,21 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
             if input_dt is not None and input_dt.generation_time == self.current_time:
                 self.dt = self.seconds_to_t(float(input_dt.value))
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {e.__class__.__name__}: {e}')
 
         try:
             input_thr1 = self.local_inputs['in_thr1']
             if input_thr1 is not None and input_thr1.generation_time == self.current_time:
                 self.thr1 = float(input_thr1.value)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {e.__class__.__name__}: {e}')
 
         try:
             input_thr2 = self.local_inputs['in_thr2']
             if input_thr2 is not None and input_thr2.generation_time == self.current_time:
                 self.thr2 = float(input_thr2.value)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {e.__class__.__name__}: {e}')
 
     def trigger_code(self):
 
-- 
2.43.0


From 3a74e94ca81fb4f900ff6fe78fd0a3ee5edb6bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:24:19 +0000
Subject: [PATCH 092/127] fix: the dark frame loaded by DynamicDarkCalibrator
 was discarded

---
 specula/processing_objects/dynamic_dark_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/dynamic_dark_calibrator.py b/specula/processing_objects/dynamic_dark_calibrator.py
index 590dbf0..696a329 100644
--- a/specula/processing_objects/dynamic_dark_calibrator.py
+++ b/specula/processing_objects/dynamic_dark_calibrator.py
@@ -202,7 +202,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
                 if not filename.endswith('.fits'):
                     filename += '.fits'
                 fullpath = os.path.join(self.data_dir, filename)
-                self.darkframe.restore(fullpath)
+                self.darkframe.set_value(Pixels.restore(fullpath).pixels)
                 self.darkframe.generation_time = self.current_time
         except Exception as e:
             print(f'Exception: {e.__class__.__name__}: {e}')
-- 
2.43.0


From d42a0b39733e6be3533d3464b98d9cc43c1743de Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:24:19 +0000
Subject: [PATCH 093/127] fix: dark acquisitions started again or with nframes
 changed meanwhile were not a mean

---
 specula/processing_objects/dynamic_dark_calibrator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/dynamic_dark_calibrator.py b/specula/processing_objects/dynamic_dark_calibrator.py
index 696a329..732832e 100644
--- a/specula/processing_objects/dynamic_dark_calibrator.py
+++ b/specula/processing_objects/dynamic_dark_calibrator.py
@@ -99,6 +99,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         self.overwrite = overwrite
         self.integrated_pixels = None
         self.counter = 0
+        self.nintegrated = nframes
 
         # Inputs
         self.inputs['in_pixels'] = InputValue(type=Pixels)
@@ -168,7 +169,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         self.counter -= 1
 
         if self.counter == 0:
-            self.darkframe.pixels[:] = (self.integrated_pixels / self.nframes).astype(self.darkframe.pixels.dtype)
+            self.darkframe.pixels[:] = (self.integrated_pixels / self.nintegrated).astype(self.darkframe.pixels.dtype)
             self.darkframe.generation_time = self.current_time
             self.integrated_pixels *= 0
 
@@ -179,6 +180,8 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         input_trigger = self.local_inputs['in_trigger']
         if input_trigger is not None and input_trigger.generation_time == self.current_time:
             self.counter = self.nframes
+            self.nintegrated = self.nframes
+            self.integrated_pixels *= 0
 
         input_reset = self.local_inputs['in_reset']
         if input_reset is not None and input_reset.generation_time == self.current_time:
-- 
2.43.0


From da84bfe4dd6e0e470eeb1a663d42670592df1cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:24:19 +0000
Subject: [PATCH 094/127] fix: DynamicDarkCalibrator integrated old frames when
 triggered by an interactive input

---
 specula/processing_objects/dynamic_dark_calibrator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/dynamic_dark_calibrator.py b/specula/processing_objects/dynamic_dark_calibrator.py
index 732832e..518ad65 100644
--- a/specula/processing_objects/dynamic_dark_calibrator.py
+++ b/specula/processing_objects/dynamic_dark_calibrator.py
@@ -162,7 +162,8 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         self.subtracted_pixels.pixels = value - self.darkframe.pixels
         self.subtracted_pixels.generation_time = self.current_time
 
-        if self.counter == 0:
+        # Integrate each frame only once
+        if self.counter == 0 or self.local_inputs['in_pixels'].generation_time != self.current_time:
             return
 
         self.integrated_pixels += value
-- 
2.43.0


From 9d065e83f95afb1e15f3ab5bc94e50842075398d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:24:19 +0000
Subject: [PATCH 095/127] fix: the dark frame was not refreshed by a reset

---
 specula/processing_objects/dynamic_dark_calibrator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specula/processing_objects/dynamic_dark_calibrator.py b/specula/processing_objects/dynamic_dark_calibrator.py
index 518ad65..3d685c9 100644
--- a/specula/processing_objects/dynamic_dark_calibrator.py
+++ b/specula/processing_objects/dynamic_dark_calibrator.py
@@ -187,6 +187,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         input_reset = self.local_inputs['in_reset']
         if input_reset is not None and input_reset.generation_time == self.current_time:
             self.darkframe.pixels *= 0
+            self.darkframe.generation_time = self.current_time
 
         # Interactive inputs are protected frome exceptions
         try:
-- 
2.43.0


From d4582abf8781c3de93121b7814128608ce9ba795 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:24:19 +0000
Subject: [PATCH 096/127] fix: DynamicPyrPupdataCalibrator without dt failed at
 every step

---
 specula/processing_objects/dynamic_pyr_pupdata_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
index 3422456..46bd303 100644
--- a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
@@ -164,7 +164,7 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
 
         # Update output params with current values
         self.outputs['out_params'].value = {
-            'dt': self.t_to_seconds(self.dt),
+            'dt': self.t_to_seconds(self.dt) if self.dt is not None else None,
             'thr1': self.thr1,
             'thr2': self.thr2,
             'status': self.status_string,
-- 
2.43.0


From f7b7e57e1474eac9eabe886d9753a3966f44a6ff Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:24:19 +0000
Subject: [PATCH 097/127] fix: DynamicPyrPupdataCalibrator accepted null and
 negative in_dt, then failed

---
 specula/processing_objects/dynamic_pyr_pupdata_calibrator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
index 46bd303..dd544ed 100644
--- a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
@@ -127,7 +127,10 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
             # Use float() to accept string values as well
             input_dt = self.local_inputs['in_dt']
             if input_dt is not None and input_dt.generation_time == self.current_time:
-                self.dt = self.seconds_to_t(float(input_dt.value))
+                dt = self.seconds_to_t(float(input_dt.value))
+                if dt <= 0:
+                    raise ValueError(f'dt (integration time) is {input_dt.value} and must be greater than zero')
+                self.dt = dt
         except Exception as e:
             print(f'Exception: {e.__class__.__name__}: {e}')
 
-- 
2.43.0


From a634d6525c9ac9db688f8c86bd055e3aa69fa8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:24:19 +0000
Subject: [PATCH 098/127] fix: DynamicPyrPupdataCalibrator ignored
 in_output_tag

---
 specula/processing_objects/dynamic_pyr_pupdata_calibrator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
index dd544ed..a225f08 100644
--- a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
@@ -148,6 +148,10 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
         except Exception as e:
             print(f'Exception: {e.__class__.__name__}: {e}')
 
+        input_output_tag = self.local_inputs['in_output_tag']
+        if input_output_tag is not None and input_output_tag.generation_time == self.current_time:
+            self.filename = str(input_output_tag.value)
+
     def trigger_code(self):
 
         try:
-- 
2.43.0


From a35f2b1d5b581aafa02e486b744ec6dacaa38f5a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:24:19 +0000
Subject: [PATCH 099/127] fix: frames of a failed pupil measurement were kept
 for the next one

---
 specula/processing_objects/pyr_pupdata_calibrator.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/specula/processing_objects/pyr_pupdata_calibrator.py b/specula/processing_objects/pyr_pupdata_calibrator.py
index ed283c3..1928ed9 100644
--- a/specula/processing_objects/pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/pyr_pupdata_calibrator.py
@@ -163,7 +163,9 @@ class PyrPupdataCalibrator(BaseProcessingObj):
             if self.current_time % self.dt != 0:
                 return
 
-        image = self.integrated_pixels
+        # Reset integrated intensity
+        image = self.integrated_pixels.copy()
+        self.integrated_pixels *= 0.0
 
         # Analyze pupils
         centers, radii = self._analyze_pupils(image)
@@ -189,9 +191,6 @@ class PyrPupdataCalibrator(BaseProcessingObj):
         self.pupdata.slopes_from_intensity = self.slopes_from_intensity
         self.pupdata.generation_time = self.current_time
 
-        # Reset integrated intensity
-        self.integrated_pixels *= 0.0
-
     def _analyze_pupils(self, image):
         """
         Detect pupil centers and radii in four quadrants.
-- 
2.43.0


From 728d55ffd9ebf2c4e3152c4a09358a39bd17ca1a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 01:25:49 +0000
Subject: [PATCH 100/127] fix: saving on a command without file name stopped
 the simulation

---
 specula/processing_objects/dynamic_dark_calibrator.py        | 4 +++-
 specula/processing_objects/dynamic_pyr_pupdata_calibrator.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/dynamic_dark_calibrator.py b/specula/processing_objects/dynamic_dark_calibrator.py
index 3d685c9..2978b1d 100644
--- a/specula/processing_objects/dynamic_dark_calibrator.py
+++ b/specula/processing_objects/dynamic_dark_calibrator.py
@@ -217,7 +217,9 @@ class DynamicDarkCalibrator(BaseProcessingObj):
 
         input_save = self.local_inputs['in_save']
         if input_save is not None and input_save.generation_time == self.current_time:
-            self.save(input_save.value)
+            # Commands without a filename hold no string
+            filename = input_save.value
+            self.save(filename if isinstance(filename, str) else None)
 
     def save(self, filename=None):
         """Save dark frame data to disk as a FITS file"""
diff --git a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
index a225f08..5f6d849 100644
--- a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
@@ -167,7 +167,9 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
         # Save pupdata if requested
         input_save = self.local_inputs['in_save']
         if input_save is not None and input_save.generation_time == self.current_time:
-            self._save(input_save.value)
+            # Commands without a filename hold no string
+            filename = input_save.value
+            self._save(filename if isinstance(filename, str) else self.filename)
 
         # Update output params with current values
         self.outputs['out_params'].value = {
-- 
2.43.0


From b3f8d91ff587960852ee59d33f9a6f1c349479d8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:34:21 +0000
Subject: [PATCH 101/127] fix: the modes to be filtered out of a modal base
 were not removed

---
 specula/lib/modal_base_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specula/lib/modal_base_generator.py b/specula/lib/modal_base_generator.py
index af44cf8..060bd05 100644
--- a/specula/lib/modal_base_generator.py
+++ b/specula/lib/modal_base_generator.py
@@ -246,6 +246,8 @@ def make_modal_base_from_ifs_fft(pupil_mask, diameter, influence_functions, r0,
 
     modes_to_be_removed = xp.zeros((number_of_modes_to_be_removed, npupil_mask), dtype=dtype)
     modes_to_be_removed[0, :] = 1.0
+    if filt_modes is not None:
+        modes_to_be_removed[1 + zern_modes:, :] = filt_modes
 
     if zern_modes > 0:
         zg = ZernikeGenerator(mask_shape[0], xp=xp, dtype=dtype)
-- 
2.43.0


From 28c1a3a0d32666a40ec83ce505d313b888815324 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:34:40 +0000
Subject: [PATCH 102/127] fix: the modes-to-commands matrix of a modal base did
 not give its modes

---
 specula/lib/modal_base_generator.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/specula/lib/modal_base_generator.py b/specula/lib/modal_base_generator.py
index 060bd05..71b5fa1 100644
--- a/specula/lib/modal_base_generator.py
+++ b/specula/lib/modal_base_generator.py
@@ -266,9 +266,15 @@ def make_modal_base_from_ifs_fft(pupil_mask, diameter, influence_functions, r0,
             modes_to_be_removed[i+1, :] -= xp.mean(modes_to_be_removed[i+1, :])
             modes_to_be_removed[i+1, :] /= xp.sqrt(xp.mean(modes_to_be_removed[i+1, :]**2))
 
-    if zern_modes > 0:
-        coef_zern = xp.matmul(modes_to_be_removed, pinv(influence_functions))
-        modes_to_be_removed = xp.matmul(coef_zern, influence_functions)
+    # Commands that give the modes to be removed. Piston is subtracted as such:
+    # a combination of influence functions is not necessarily flat.
+    coef_removed = xp.zeros((number_of_modes_to_be_removed, n_actuators), dtype=dtype)
+    if number_of_modes_to_be_removed > 1:
+        coef_removed[1:] = xp.matmul(modes_to_be_removed[1:], pinv(influence_functions))
+        modes_to_be_removed[1:] = xp.matmul(coef_removed[1:], influence_functions)
+        modes_to_be_removed[1:] -= xp.mean(modes_to_be_removed[1:], axis=1, keepdims=True)
+
+    n_fixed_modes = number_of_modes_to_be_removed
 
     coef = xp.zeros((number_of_modes_to_be_removed, n_actuators), dtype=dtype)
     filtered_ifs = influence_functions.copy()
@@ -344,6 +350,10 @@ def make_modal_base_from_ifs_fft(pupil_mask, diameter, influence_functions, r0,
 
     kl_modes = xp.matmul(filtered_ifs.T, Bp[:, :n_actuators-number_of_modes_to_be_removed])
 
+    # Commands of the filtered influence functions, apart from piston
+    K = xp.eye(n_actuators, dtype=dtype)
+    K -= xp.matmul(coef_removed[1:].T, coef[1:n_fixed_modes])
+
     if zern_modes > 0:
         if verbose: # pragma: no cover
             print("Step 6: Adding Zernike modes to basis...")
@@ -351,20 +361,12 @@ def make_modal_base_from_ifs_fft(pupil_mask, diameter, influence_functions, r0,
         zern_basis = modes_to_be_removed[1:zern_modes+1, :]
         kl_basis = xp.vstack((zern_basis, kl_modes.T))
 
-        K = xp.eye(n_actuators, dtype=dtype)
-        projection = xp.matmul(coef_zern[1:zern_modes+1, :].T, coef[1:zern_modes+1, :])
-        K -= projection
-
-        m2c_zern = coef_zern[1:zern_modes+1, :].T
+        m2c_zern = coef_removed[1:zern_modes+1, :].T
         m2c_kl = xp.matmul(K, Bp[:, :n_actuators-number_of_modes_to_be_removed])
         m2c = xp.hstack((m2c_zern, m2c_kl))
     else:
         kl_basis = kl_modes.T
 
-        K = xp.eye(n_actuators, dtype=dtype)
-        projection = xp.outer(coef[0, :], coef[0, :])
-        K -= projection
-
         m2c = xp.matmul(K, Bp[:, :n_actuators-number_of_modes_to_be_removed])
 
     singular_values = {"S1": S1, "S2": S2}
-- 
2.43.0


From bc27638772cf0ff5c7300c2cfab7ad837468c1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:34:40 +0000
Subject: [PATCH 103/127] fix: mechanical coupling of neighbouring actuators
 depended on rounding errors

---
 specula/lib/compute_zonal_ifunc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/specula/lib/compute_zonal_ifunc.py b/specula/lib/compute_zonal_ifunc.py
index d277fd5..bd9cdc7 100644
--- a/specula/lib/compute_zonal_ifunc.py
+++ b/specula/lib/compute_zonal_ifunc.py
@@ -189,9 +189,11 @@ def compute_zonal_ifunc(dim, n_act, xp=np, dtype=np.float32, circ_geom:bool=Fals
             # Distance from actuator j to all others
             distance = xp.sqrt((x - x[j])**2 + (y - y[j])**2)
 
-            # Find neighbors, excluding self (distance > 0)
-            close1_indices = xp.where((distance > 0) & (distance <= step))[0]
-            close2_indices = xp.where((distance > step) & (distance <= 2 * step))[0]
+            # Find neighbors, excluding self (distance > 0). Actuators lie exactly at these
+            # distances: do not let the rounding of their coordinates decide.
+            tol = 1e-6 * step
+            close1_indices = xp.where((distance > tol) & (distance <= step + tol))[0]
+            close2_indices = xp.where((distance > step + tol) & (distance <= 2 * step + tol))[0]
 
             # Start with original influence function
             ifs_cube[j, :, :] = ifs_cube_orig[j, :, :]
-- 
2.43.0


From be53d3993ad193f2b7b3cc3744f88cc1a0bec011 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:43:31 +0000
Subject: [PATCH 104/127] fix: image scale of the curvature sensor depended on
 the field oversampling

The pixel scale of the internal grid was computed with the pitch of the input
field instead of the one of the field resampled on the internal grid.
---
 specula/processing_objects/curvature_sensor.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/specula/processing_objects/curvature_sensor.py b/specula/processing_objects/curvature_sensor.py
index 2083a6a..19844a3 100644
--- a/specula/processing_objects/curvature_sensor.py
+++ b/specula/processing_objects/curvature_sensor.py
@@ -113,9 +113,11 @@ class CurvatureSensor(BaseProcessingObj):
         self.internal_res = int(np.ceil(internal_size_float))
         self.internal_res += (self.internal_res % 2) # Force even
 
-        # Recalculate the "actual" internal pxscale based on the integer size,
-        # which will be important when we do toccd to rescale to the final output_resolution
-        self.actual_internal_pxscale = lambda_m / (self.internal_res * in_ef.pixel_pitch) * RAD2ASEC
+        # Recalculate the "actual" internal pxscale based on the integer size and on the
+        # pitch of the resampled field, which will be important when we do toccd
+        # to rescale to the final output_resolution
+        new_pixel_pitch = in_ef.pixel_pitch * (in_ef.size[0] / self.internal_res)
+        self.actual_internal_pxscale = lambda_m / (self.internal_res * new_pixel_pitch) * RAD2ASEC
 
         # 2. Setup EFInterpolator
         self.ef_interpolator = EFInterpolator(
@@ -140,7 +142,6 @@ class CurvatureSensor(BaseProcessingObj):
         self._temp_i2 = self.xp.zeros((self.internal_res, self.internal_res), dtype=self.dtype)
 
         # 3. Create Aberration Phase (Focus)
-        new_pixel_pitch = in_ef.pixel_pitch * (in_ef.size[0] / self.internal_res)
         pupil_diameter_m = in_ef.size[0] * in_ef.pixel_pitch
         pupil_diameter_pix = pupil_diameter_m / new_pixel_pitch
 
-- 
2.43.0


From cb8bc625be911c9213f28ccc8205454dd6017103 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:44:52 +0000
Subject: [PATCH 105/127] fix: extended sources smaller than their sampling had
 no points

A TOPHAT source with Cartesian sampling and a size up to about three samples
had no point at all, and one with RINGS sampling could not be built.
---
 specula/processing_objects/extended_source.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/extended_source.py b/specula/processing_objects/extended_source.py
index 2ed3591..4983451 100644
--- a/specula/processing_objects/extended_source.py
+++ b/specula/processing_objects/extended_source.py
@@ -237,6 +237,10 @@ class ExtendedSource(BaseProcessingObj):
 
         xx_arcsec = xx[valid_mask]
         yy_arcsec = yy[valid_mask]
+        if len(xx_arcsec) == 0:
+            # Object not resolved by the sampling
+            xx_arcsec = np.array([0.0])
+            yy_arcsec = np.array([0.0])
         n_points = len(xx_arcsec)
 
         # Convert to tip/tilt coefficients
@@ -314,9 +318,9 @@ class ExtendedSource(BaseProcessingObj):
             n_rings = self.n_rings
         else:
             # Default: based on diffraction-limited resolution
-            n_rings = int(
+            n_rings = max(1, int(
                 np.round(self.size_obj/2 / (5 * (self.wavelengthInNm/1e9) / self.d_tel / 4.848e-6))
-            )
+            ))
 
         # Ring geometry
         size_ring = (self.size_obj/2) / n_rings
-- 
2.43.0


From 9f3e3d5569f1c8c9f724596d4c1c839a1129b559 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:44:52 +0000
Subject: [PATCH 106/127] fix: extended source from a PSF failed without PSF
 input or with another PSF size

The PSF input is optional, and the PSF received is only cut to the size of the
initial one when crop_psf is set.
---
 specula/processing_objects/extended_source.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/extended_source.py b/specula/processing_objects/extended_source.py
index 4983451..877a284 100644
--- a/specula/processing_objects/extended_source.py
+++ b/specula/processing_objects/extended_source.py
@@ -714,7 +714,7 @@ class ExtendedSource(BaseProcessingObj):
         """Update PSF if new data is available and recompute if needed"""
         if self.source_type == 'FROM_PSF':
             psf = self.local_inputs.get('psf')
-            if np.sum(self.xp.abs(psf.value)) > 0:
+            if psf is not None and np.sum(self.xp.abs(psf.value)) > 0:
                 if self.crop_psf:
                     npsf_input = psf.value.shape[0]
                     npsf_target = self.psf.value.shape[0]
@@ -733,6 +733,8 @@ class ExtendedSource(BaseProcessingObj):
                 else:
                     psf_temp = psf.value
 
+                if psf_temp.shape != self.psf.value.shape:
+                    self.psf.value = self.xp.zeros(psf_temp.shape, dtype=self.dtype)
                 self.psf.set_value(psf_temp)
                 self.compute()  # Recompute all coefficients with new PSF
                 self.outputs['coeff'].generation_time = self.current_time
-- 
2.43.0


From 2efd50ef34024daaa1954f874cef351f50f67645 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:44:52 +0000
Subject: [PATCH 107/127] fix: extended source from a PSF with an odd number of
 pixels was off centre

The centre of a PSF with n pixels is pixel n//2, also when it is cut or padded.
---
 specula/processing_objects/extended_source.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/specula/processing_objects/extended_source.py b/specula/processing_objects/extended_source.py
index 877a284..39992fd 100644
--- a/specula/processing_objects/extended_source.py
+++ b/specula/processing_objects/extended_source.py
@@ -520,8 +520,8 @@ class ExtendedSource(BaseProcessingObj):
             yy_arcsec = yy.flatten()
 
             # Convert to PSF pixel coordinates for interpolation
-            xx_psf = xx_arcsec / self.pixel_scale_psf + s_psf[0]/2
-            yy_psf = yy_arcsec / self.pixel_scale_psf + s_psf[0]/2
+            xx_psf = xx_arcsec / self.pixel_scale_psf + s_psf[1]//2
+            yy_psf = yy_arcsec / self.pixel_scale_psf + s_psf[0]//2
 
             # Interpolate PSF values
             # Create interpolation function
@@ -584,8 +584,8 @@ class ExtendedSource(BaseProcessingObj):
             yy_arcsec = yy_interpol * self.pixel_scale_psf
 
             # Adjust for PSF indexing
-            xx_interpol += s_psf[0] / 2
-            yy_interpol += s_psf[0] / 2
+            xx_interpol += s_psf[1] // 2
+            yy_interpol += s_psf[0] // 2
 
             # Interpolate PSF values, clamping out-of-bounds to nearest edge
             x_psf = np.arange(s_psf[1])
@@ -723,12 +723,12 @@ class ExtendedSource(BaseProcessingObj):
                         psf_temp = psf.value
                     elif npsf_target < npsf_input:
                         # Crop PSF (center region)
-                        delta = (npsf_input - npsf_target) // 2
+                        delta = npsf_input // 2 - npsf_target // 2
                         psf_temp = psf.value[delta:delta+npsf_target, delta:delta+npsf_target]
                     else:
                         # Pad PSF with zeros
                         psf_temp = self.xp.zeros((npsf_target, npsf_target), dtype=self.dtype)
-                        delta = (npsf_target - npsf_input) // 2
+                        delta = npsf_target // 2 - npsf_input // 2
                         psf_temp[delta:delta+npsf_input, delta:delta+npsf_input] = psf.value
                 else:
                     psf_temp = psf.value
-- 
2.43.0


From 32b6d915645e872a86b1e123f9a6d842feec760f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:46:47 +0000
Subject: [PATCH 108/127] fix: CiaoCiao slopes had a tilt on detectors with an
 odd number of pixels

The sideband was not moved to the zero frequency, which is pixel n//2 of the
shifted transform.
---
 specula/processing_objects/ciao_ciao_slopec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/ciao_ciao_slopec.py b/specula/processing_objects/ciao_ciao_slopec.py
index 5f5118e..3d08bc8 100644
--- a/specula/processing_objects/ciao_ciao_slopec.py
+++ b/specula/processing_objects/ciao_ciao_slopec.py
@@ -161,12 +161,12 @@ class CiaoCiaoSlopec(Slopec):
 
         # 4. Roll / Shift the sideband to the center
         shape = pixels.shape
-        shift_y = int(self.xp.rint(shape[0] / 2 - self.window_y))
-        shift_x = int(self.xp.rint(shape[1] / 2 - self.window_x))
+        shift_y = int(shape[0] // 2 - self.xp.rint(self.window_y))
+        shift_x = int(shape[1] // 2 - self.xp.rint(self.window_x))
         ft_roll = self.xp.roll(ft_filtered, (shift_y, shift_x), axis=(0, 1))
 
         # 5. Inverse FFT
-        intensity_filtered = self.xp.fft.ifft2(self.xp.fft.fftshift(ft_roll))
+        intensity_filtered = self.xp.fft.ifft2(self.xp.fft.ifftshift(ft_roll))
 
         # 6. Phase extraction
         phase = self.xp.arctan2(intensity_filtered.imag, intensity_filtered.real)
-- 
2.43.0


From a3f5d3f3a3d10bf9cfec21450cb4a89da7657b0b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:46:47 +0000
Subject: [PATCH 109/127] fix: ideal derivative sensor left out the flat part
 of the wavefront

Pixels with zero derivative were not counted in the mean over a subaperture,
so that slopes were not linear in the phase.
---
 specula/processing_objects/ideal_derivative_sensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/ideal_derivative_sensor.py b/specula/processing_objects/ideal_derivative_sensor.py
index 3001ccf..41c6e58 100644
--- a/specula/processing_objects/ideal_derivative_sensor.py
+++ b/specula/processing_objects/ideal_derivative_sensor.py
@@ -200,8 +200,8 @@ class IdealDerivativeSensor(BaseProcessingObj):
         dx_all = dx_all * subap_masks
         dy_all = dy_all * subap_masks
 
-        # Find valid pixels (non-zero derivatives) for all subapertures
-        valid_masks = ((self.xp.abs(dx_all) + self.xp.abs(dy_all)) > 0) & subap_masks
+        # Find valid pixels (inside the pupil) for all subapertures
+        valid_masks = mask.ravel()[subap_indices_matrix] & subap_masks
 
         # Vectorized mean computation
         # Set invalid pixels to 0 for mean calculation
-- 
2.43.0


From 55a9597379a5d0f390cdc1791edf50b8c8b1f647 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:05:10 +0000
Subject: [PATCH 110/127] fix: resonance at the largest stable gain was
 computed at another gain

---
 specula/data_objects/iir_filter_data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/specula/data_objects/iir_filter_data.py b/specula/data_objects/iir_filter_data.py
index 8597ac4..d712ea1 100644
--- a/specula/data_objects/iir_filter_data.py
+++ b/specula/data_objects/iir_filter_data.py
@@ -702,8 +702,9 @@ class IirFilterData(BaseDataObj):
 
             # Calculate resonance frequency at 99% of max stable gain
             if max_stable > 0:
+                # gain_factor is relative to the current gain
                 resonance_freq, resonance_amp = self.resonance_frequency(
-                    mode=mode, gain_factor=max_stable * 0.99,
+                    mode=mode, gain_factor=max_stable * 0.99 / float(self.num[mode, -1]),
                     delay=delay, dm=dm, nw=nw, dw=dw, fs=fs
                 )
             else:
@@ -727,8 +728,9 @@ class IirFilterData(BaseDataObj):
             for i in range(self.nfilter):
                 # Calculate resonance frequency at 99% of max stable gain
                 if max_stable_gains[i] > 0:
+                    # gain_factor is relative to the current gain
                     resonance_freq, resonance_amp = self.resonance_frequency(
-                        mode=i, gain_factor=max_stable_gains[i] * 0.99,
+                        mode=i, gain_factor=max_stable_gains[i] * 0.99 / float(self.num[i, -1]),
                         delay=delay, dm=dm, nw=nw, dw=dw, fs=fs
                     )
                 else:
-- 
2.43.0


From a4625c6ef720f871c84d8e40046670ad368e47f3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:10:39 +0000
Subject: [PATCH 111/127] fix: an optical gain of one element could not be
 given to the gain optimizer

---
 specula/processing_objects/gain_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/gain_optimizer.py b/specula/processing_objects/gain_optimizer.py
index ae8331e..3ec1119 100644
--- a/specula/processing_objects/gain_optimizer.py
+++ b/specula/processing_objects/gain_optimizer.py
@@ -107,7 +107,7 @@ class GainOptimizer(BaseProcessingObj):
         # Store optical gain if available
         if self.local_inputs['optical_gain'] is not None:
             self.current_optical_gain = self.local_inputs['optical_gain'].value
-            self.optical_gain_hist.append(float(self.current_optical_gain))
+            self.optical_gain_hist.append(float(cpuArray(self.xp.ravel(self.current_optical_gain))[0]))
         else:
             self.current_optical_gain = 1.0
 
-- 
2.43.0


From 212d2aac26f21e8f86ebaaf81b84bb29f42d0d9e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:11:32 +0000
Subject: [PATCH 112/127] fix: gains were set to one when the first frame came
 at the time of an optimization

---
 specula/processing_objects/gain_optimizer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/gain_optimizer.py b/specula/processing_objects/gain_optimizer.py
index 3ec1119..4040d6b 100644
--- a/specula/processing_objects/gain_optimizer.py
+++ b/specula/processing_objects/gain_optimizer.py
@@ -121,19 +121,19 @@ class GainOptimizer(BaseProcessingObj):
 
         # Check if it's time to optimize
         if t >= self.opt_dt and (t % self.opt_dt) == 0:
-            self._optimize_gains(t)
-            self.optimization_done = True
+            self.optimization_done = self._optimize_gains(t)
         else:
             self.optimization_done = False
 
     def _optimize_gains(self, t):
         """
         Perform gain optimization based on accumulated history.
+        Returns True if the gains have been optimized.
         """
         if len(self.delta_comm_hist) < 2:
             if self.verbose:
                 print("Not enough history for optimization")
-            return
+            return False
 
         # Convert history to arrays
         delta_comm_hist = self.xp.array(self.delta_comm_hist)
@@ -189,6 +189,8 @@ class GainOptimizer(BaseProcessingObj):
             print(f"Optimized gains at t={self.t_to_seconds(t):.3f}s: "
                   f"mean={float(self.xp.mean(opt_gains)):.4f}")
 
+        return True
+
     def _calculate_pseudo_open_loop(self, delta_comm_hist, comm_hist):
         """
         Calculate pseudo open-loop signal from delta commands and output commands.
-- 
2.43.0


From 7136624ff3dedfbe69437d42100df370b05c6034 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:23:45 +0000
Subject: [PATCH 113/127] fix: outputs could not be stored under a name with a
 minus sign, as those of field sources at negative angles

---
 specula/simul.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/simul.py b/specula/simul.py
index d1dc5a4..60a54f9 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -137,7 +137,7 @@ class Simul():
         else:
             delay = 0
         if '-' in output_name:
-            input_name, output_name = output_name.split('-')
+            input_name, output_name = output_name.rsplit('-', 1)
         else:
             input_name = None
 
-- 
2.43.0


From 8d01eb431252b2d9822f7a2cd240dc55a3b10d64 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:23:45 +0000
Subject: [PATCH 114/127] fix: analyses of near field sources, or with other
 parameters, returned the results of each other

---
 specula/field_analyser.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/specula/field_analyser.py b/specula/field_analyser.py
index 6b44c6f..600ebbc 100644
--- a/specula/field_analyser.py
+++ b/specula/field_analyser.py
@@ -9,6 +9,13 @@ import specula
 from specula.simul import Simul
 from specula.lib.calc_psf import calc_psf_geometry
 
+
+def _number_str(value: float, digits: int) -> str:
+    """Format a number for a file name, with more digits if those asked are not enough"""
+    text = f'{value:.{digits}f}'
+    return text if float(text) == value else repr(float(value))
+
+
 class FieldAnalyser:
     """
     Class to analyze field PSF, modal analysis, and phase cubes
@@ -107,9 +114,9 @@ class FieldAnalyser:
             Tuple of (psf_filename, sr_filename) without .fits extension
         """
         r, theta = source_dict['polar_coordinates']
-        psf_filename = f"psf_r{r:.1f}t{theta:.1f}_pix{self.psf_pixel_size_mas:.2f}mas_wl{self.wavelength_nm:.0f}nm"
-        sr_filename = f"sr_r{r:.1f}t{theta:.1f}_pix{self.psf_pixel_size_mas:.2f}mas_wl{self.wavelength_nm:.0f}nm"
-        return psf_filename, sr_filename
+        suffix = f"r{_number_str(r, 1)}t{_number_str(theta, 1)}_pix{self.psf_pixel_size_mas:.2f}mas" \
+                 f"_wl{_number_str(self.wavelength_nm, 0)}nm_start{_number_str(self.start_time, 1)}s"
+        return f"psf_{suffix}", f"sr_{suffix}"
 
     def _get_modal_filename(self, source_dict: dict, modal_params: dict) -> str:
         """
@@ -123,7 +130,7 @@ class FieldAnalyser:
             Filename without .fits extension
         """
         r, theta = source_dict['polar_coordinates']
-        modal_filename = f"modal_r{r:.1f}t{theta:.1f}"
+        modal_filename = f"modal_r{_number_str(r, 1)}t{_number_str(theta, 1)}"
 
         # Add modal parameters to filename
         if 'nmodes' in modal_params:
@@ -149,7 +156,13 @@ class FieldAnalyser:
             modal_filename += f"_{modal_params['type_str']}"
 
         if 'obsratio' in modal_params:
-            modal_filename += f"_obs{modal_params['obsratio']:.2f}"
+            modal_filename += f"_obs{_number_str(modal_params['obsratio'], 2)}"
+
+        if 'diaratio' in modal_params:
+            modal_filename += f"_dia{_number_str(modal_params['diaratio'], 2)}"
+
+        if 'wavelengthInNm' in modal_params:
+            modal_filename += f"_wl{_number_str(modal_params['wavelengthInNm'], 0)}nm"
 
         return modal_filename
 
@@ -164,7 +177,8 @@ class FieldAnalyser:
             Filename without .fits extension
         """
         r, theta = source_dict['polar_coordinates']
-        cube_filename = f"cube_r{r:.1f}t{theta:.1f}_wl{self.wavelength_nm:.0f}nm"
+        cube_filename = f"cube_r{_number_str(r, 1)}t{_number_str(theta, 1)}" \
+                        f"_wl{_number_str(self.wavelength_nm, 0)}nm"
         return cube_filename
 
     def _build_replay_params_from_datastore(self) -> dict:
-- 
2.43.0


From f5f49568fa89953453bf46e81c1078f08715e241 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:38:36 +0000
Subject: [PATCH 115/127] fix: the double phase display never displayed
 anything

---
 specula/display/double_phase_display.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/specula/display/double_phase_display.py b/specula/display/double_phase_display.py
index 8e0d3df..6a13c5a 100644
--- a/specula/display/double_phase_display.py
+++ b/specula/display/double_phase_display.py
@@ -91,10 +91,13 @@ class DoublePhaseDisplay(BaseDisplay):
         if self.img1 is None:
             # Clear default axis and create 4 subplots
             self.fig.clear()
+            if self._title:
+                self.fig.suptitle(self._title)
             self.ax1 = self.fig.add_subplot(141)
             self.ax2 = self.fig.add_subplot(142)
             self.ax3 = self.fig.add_subplot(143)
             self.ax4 = self.fig.add_subplot(144)
+            self.ax = self.ax1  # Used by base class
 
             # Create images
             self.img1 = self.ax1.imshow(frame1)
@@ -129,14 +132,3 @@ class DoublePhaseDisplay(BaseDisplay):
         self.ax4.legend()
 
         self._safe_draw()
-
-    def trigger_code(self):
-        """Override to handle dual phase inputs"""
-        try:
-            if not self._opened:
-                self._create_figure()
-
-            # DoublePhaseDisplay handles dual inputs
-            self._update_display()
-        except Exception as e:
-            self._show_error(f"Double phase display error: {str(e)}")
-- 
2.43.0


From 3152c17c50f531c58cf78c90bf4083a05ca5fd57 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:38:36 +0000
Subject: [PATCH 116/127] fix: displays remained empty after an error, even
 with valid data

---
 specula/display/base_display.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/specula/display/base_display.py b/specula/display/base_display.py
index d2b2902..c7a1b86 100644
--- a/specula/display/base_display.py
+++ b/specula/display/base_display.py
@@ -23,6 +23,7 @@ class BaseDisplay(BaseProcessingObj):
         self.ax = None
         self.img = None
         self.line = None
+        self._error_text = None
         self.onNotebook  = runningOnNotebook()
 
     def _create_figure(self):
@@ -60,8 +61,10 @@ class BaseDisplay(BaseProcessingObj):
         try:
             if not self._opened:
                 self._create_figure()
+            self._clear_error()
             data = self._get_data()
-            self._update_display(data)
+            if data is not None:
+                self._update_display(data)
             if self.onNotebook:
                 self.handle.update(self.fig)
         except Exception as e:
@@ -100,11 +103,19 @@ class BaseDisplay(BaseProcessingObj):
     def _show_error(self, message):
         if not self._opened:
             self._create_figure()
-        self.ax.clear()
-        self.ax.text(0.5, 0.5, message, ha='center', va='center', 
+        # What is already plotted must remain in the figure, in order to
+        # be updated by the next valid data
+        self._clear_error()
+        self._error_text = self.ax.text(0.5, 0.5, message, ha='center', va='center',
                     transform=self.ax.transAxes, color='red', fontsize=12)
         self._safe_draw()
 
+    def _clear_error(self):
+        if self._error_text is not None:
+            if self._error_text.axes is not None:
+                self._error_text.remove()
+            self._error_text = None
+
     def _safe_draw(self):
         """Thread-safe drawing method"""
         try:
-- 
2.43.0


From 7281cf6e5bb95ad0ce8f1d38a072146a9851f22e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:38:36 +0000
Subject: [PATCH 117/127] fix: the pixels display kept the colour scale of the
 first frame, and the extent of the first crop

---
 specula/display/base_display.py   | 3 +++
 specula/display/pixels_display.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/display/base_display.py b/specula/display/base_display.py
index c7a1b86..86a6f83 100644
--- a/specula/display/base_display.py
+++ b/specula/display/base_display.py
@@ -97,6 +97,9 @@ class BaseDisplay(BaseProcessingObj):
     def _update_image_data(self, image_obj, data):
         """Standard image update logic"""
         if image_obj is not None:
+            rows, cols = data.shape
+            if image_obj.get_array().shape != (rows, cols):
+                image_obj.set_extent((-0.5, cols - 0.5, rows - 0.5, -0.5))
             image_obj.set_data(data)
             image_obj.set_clim(data.min(), data.max())
 
diff --git a/specula/display/pixels_display.py b/specula/display/pixels_display.py
index c92ac2e..995b9be 100644
--- a/specula/display/pixels_display.py
+++ b/specula/display/pixels_display.py
@@ -153,7 +153,7 @@ class PixelsDisplay(BaseDisplay):
                 plt.colorbar(self.img, ax=self.ax)
                 self._colorbar_added = True
         else:
-            self.img.set_data(image)
+            self._update_image_data(self.img, image)
             if norm is not None:
                 self.img.set_norm(norm)
 
-- 
2.43.0


From f224964ed9dcd4cbf9c2e9c77b5ff6cdad10ed69 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:38:36 +0000
Subject: [PATCH 118/127] fix: the automatic range of the modes display left
 out modes when all have the same sign

---
 specula/display/modes_display.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/specula/display/modes_display.py b/specula/display/modes_display.py
index 49cd66d..db94021 100644
--- a/specula/display/modes_display.py
+++ b/specula/display/modes_display.py
@@ -47,7 +47,7 @@ class ModesDisplay(BaseDisplay):
                 self.ax.set_ylim(self._yrange[0], self._yrange[1])
             else:
                 # Auto-scale based on data
-                self.ax.set_ylim(y.min() * 1.1, y.max() * 1.1)
+                self._auto_ylim(y)
 
             # Add reference line at y=0
             self.ax.axhline(y=0, color='grey', linestyle='--',
@@ -69,11 +69,15 @@ class ModesDisplay(BaseDisplay):
 
             # Update Y limits if auto-scaling
             if np.sum(np.abs(self._yrange)) == 0:
-                self.ax.set_ylim(y.min() * 1.1, y.max() * 1.1)
+                self._auto_ylim(y)
 
         # Draw efficiently
         self._safe_draw()
 
+    def _auto_ylim(self, y):
+        """Y range that includes all the data and the reference line at y=0"""
+        self.ax.set_ylim(min(y.min(), 0) * 1.1, max(y.max(), 0) * 1.1)
+
     def set_x_range(self, xmin, xmax):
         """Set fixed X axis range"""
         self._xrange = (xmin, xmax)
-- 
2.43.0


From db7dc8642ead7fbb50584262a6500cdf479e3f6c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:38:36 +0000
Subject: [PATCH 119/127] fix: the pupils were drawn out of place on cropped
 images

---
 specula/display/pixels_pup_display.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/specula/display/pixels_pup_display.py b/specula/display/pixels_pup_display.py
index 26bb48b..bd3db04 100644
--- a/specula/display/pixels_pup_display.py
+++ b/specula/display/pixels_pup_display.py
@@ -44,6 +44,8 @@ class PixelsPupDisplay(BaseDisplay):
         self.inputs["in_params"] = InputValue(type=BaseValue, optional=True)
 
         # display objects
+        self._x0 = 0
+        self._y0 = 0
         self.circles = []
         self.center_points = []
         self.text_block = None
@@ -58,7 +60,6 @@ class PixelsPupDisplay(BaseDisplay):
 
         if self._crop_mode == "slice":
             x0, x1, y0, y1 = self._crop
-            return image[y0:y1, x0:x1]
 
         elif self._crop_mode == "center":
             cx, cy, hw, hh = self._crop
@@ -68,7 +69,10 @@ class PixelsPupDisplay(BaseDisplay):
             y0 = max(0, cy-hh)
             y1 = min(h, cy+hh)
 
-            return image[y0:y1, x0:x1]
+        # Position of the cropped image, used to draw the pupils
+        self._x0 = slice(x0, x1).indices(w)[0]
+        self._y0 = slice(y0, y1).indices(h)[0]
+        return image[y0:y1, x0:x1]
 
 
     def _draw_pupils(self, pupdata):
@@ -78,6 +82,8 @@ class PixelsPupDisplay(BaseDisplay):
 
         cx = cpuArray(pupdata.cx)
         cy = cpuArray(pupdata.cy)
+        xc = cx - self._x0
+        yc = cy - self._y0
         r  = cpuArray(pupdata.radius)
 
         n = pupdata.n_pupils
@@ -85,7 +91,7 @@ class PixelsPupDisplay(BaseDisplay):
         # create circles once
         if len(self.circles) == 0:
             for i in range(n):
-                circle = Circle((cx[i], cy[i]),
+                circle = Circle((xc[i], yc[i]),
                                 r[i],
                                 fill=False,
                                 color="red",
@@ -94,14 +100,14 @@ class PixelsPupDisplay(BaseDisplay):
                 self.ax.add_patch(circle)
                 self.circles.append(circle)
 
-                pt, = self.ax.plot(cx[i], cy[i], "rx")
+                pt, = self.ax.plot(xc[i], yc[i], "rx")
                 self.center_points.append(pt)
 
         else:
             for i in range(n):
-                self.circles[i].center = (cx[i], cy[i])
+                self.circles[i].center = (xc[i], yc[i])
                 self.circles[i].radius = r[i]
-                self.center_points[i].set_data([cx[i]], [cy[i]])
+                self.center_points[i].set_data([xc[i]], [yc[i]])
 
 
         # distances
-- 
2.43.0


From 906d333807d6e1e3d59e1df861551983ade27abe Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 03:42:02 +0000
Subject: [PATCH 120/127] fix: plots could not be updated any more after a
 value that could not be plotted

---
 specula/display/plot_display.py        | 3 +++
 specula/display/plot_vector_display.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/specula/display/plot_display.py b/specula/display/plot_display.py
index c1d6d66..7299538 100644
--- a/specula/display/plot_display.py
+++ b/specula/display/plot_display.py
@@ -73,6 +73,9 @@ class PlotDisplay(BaseDisplay):
             self._count = n - 1
             self._time_history = self._time_history[1:]
 
+        # Forget the time of a previous frame that could not be displayed
+        self._time_history = self._time_history[:self._count]
+
         # X axis for current data
         if self._x_axis == 'time':
             self._time_history.append(self.current_time_seconds)
diff --git a/specula/display/plot_vector_display.py b/specula/display/plot_vector_display.py
index 0d75d14..fc28ce9 100644
--- a/specula/display/plot_vector_display.py
+++ b/specula/display/plot_vector_display.py
@@ -206,6 +206,9 @@ class PlotVectorDisplay(BaseDisplay):
         # Store new values
         self._history[self._count, :] = vec
 
+        # Forget the time of a previous frame that could not be displayed
+        self._time_history = self._time_history[:self._count]
+
         # X axis
         if self._x_axis == 'time':
             self._time_history.append(self.current_time_seconds)
-- 
2.43.0


From 2ec6841c251fb00741a435879c6135eb02a6670e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:26:29 +0000
Subject: [PATCH 121/127] fix: direction of the effective wind of a moving
 object was that of arctan of one component

---
 specula/lib/fsoc_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/lib/fsoc_lib.py b/specula/lib/fsoc_lib.py
index 7f8e039..1997518 100644
--- a/specula/lib/fsoc_lib.py
+++ b/specula/lib/fsoc_lib.py
@@ -44,7 +44,7 @@ def calc_effective_wind_speed(atmo_heights, wind_speed, wind_dir, object_height,
     effective_wind_1 = wind_speed * xp.sin(wind_dir_rad) + speed_at_layer * xp.sin(object_dir_rad)
     effective_wind_2 = wind_speed * xp.cos(wind_dir_rad) + speed_at_layer * xp.cos(object_dir_rad)
     effective_wind_speed = xp.sqrt(effective_wind_1 ** 2 + effective_wind_2 ** 2)
-    effective_wind_dir = xp.arctan(effective_wind_1, effective_wind_2) * 180. / xp.pi
+    effective_wind_dir = xp.arctan2(effective_wind_1, effective_wind_2) * 180. / xp.pi
 
     return effective_wind_speed, effective_wind_dir
 
-- 
2.43.0


From 7be96b38d5c806c38279fd32687f8d148ed0688b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:26:29 +0000
Subject: [PATCH 122/127] fix: MAORY-1 photometric model had no J band by name,
 and never used its K band by wavelength

---
 specula/lib/n_phot.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/specula/lib/n_phot.py b/specula/lib/n_phot.py
index da3f901..eb0bc20 100644
--- a/specula/lib/n_phot.py
+++ b/specula/lib/n_phot.py
@@ -183,8 +183,9 @@ def n_phot(
         # otherwise the band is searched in the other elements of lambda_tab
         # MAORY-1 model never uses Na.
 
-        useNa = abs(lambda_ - 0.589e-6) < 0.0001e-6 and model != 'MAORY-1'
-        if useNa:
+        hasNa = mymodel.band_tab[-1] == 'Na'
+        useNa = abs(lambda_ - 0.589e-6) < 0.0001e-6
+        if useNa or not hasNa:
             values = mymodel.lambda_tab
         else:
             values = mymodel.lambda_tab[0:-1]
@@ -256,7 +257,7 @@ class DefaultModel():
 class Maory1Model():
     '''based on E-SPE-ESO-276-0206 issue 1 and MAORY Tech Notes 19 Dec 2007'''
 
-    band_tab = ['V', 'R', 'I', ' J', 'H', 'K']
+    band_tab = ['V', 'R', 'I', 'J', 'H', 'K']
     lambda_tab = [0.54, 0.65, 0.80, 1.25, 1.65, 2.20]  # 1e-6
     width_tab = [.090, .130, .200, .300, .350, .400]  # 1e-6
     e0_tab = [368., 177., 119., 28.6, 10.8, 3.79]  # 1e-10
-- 
2.43.0


From 76fef5bc80ad9a4634abd456ed414f09aa1a0f9a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:26:29 +0000
Subject: [PATCH 123/127] fix: two coefficients of the refraction of air in the
 L band were exchanged

---
 specula/lib/air_refraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/lib/air_refraction.py b/specula/lib/air_refraction.py
index 257d982..af10ebe 100644
--- a/specula/lib/air_refraction.py
+++ b/specula/lib/air_refraction.py
@@ -47,7 +47,7 @@ class MatharAirRefraction:
             'nu_ref': 10000.0 / 3.4,
             'coeffs': np.array([
                 [0.200049e-3, 0.588431e-1, -3.13579, -0.108142e-7, 0.586812e-12, 0.266900e-8, 0.608860e-17, 0.517962e-4, 0.778638e-6, -0.217243e-15],
-                [0.145221e-9, -0.825182e-7, 0.694124e-3, 0.230102e-11, 0.312198e-16, 0.168162e-14, -0.112149e-21, 0.461560e-22, 0.446396e-12, 0.104747e-20],
+                [0.145221e-9, -0.825182e-7, 0.694124e-3, 0.230102e-11, 0.312198e-16, 0.168162e-14, 0.461560e-22, -0.112149e-7, 0.446396e-12, 0.104747e-20],
                 [0.250951e-12, 0.137982e-9, -0.500604e-6, -0.154652e-14, -0.197792e-19, 0.353075e-17, 0.184282e-24, 0.776507e-11, 0.784600e-15, -0.523689e-23],
                 [-0.745834e-15, 0.352420e-13, -0.116668e-8, -0.323014e-17, -0.461945e-22, -0.963455e-20, -0.524471e-27, 0.172569e-13, -0.195151e-17, 0.817386e-26],
                 [-0.161432e-17, -0.730651e-15, 0.209644e-11, 0.630616e-20, 0.788398e-25, -0.223079e-22, -0.121299e-29, -0.320582e-16, -0.542083e-20, 0.309913e-28],
-- 
2.43.0


From 419f60f90e93def602f0a77be2b0b32d915b396f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:26:29 +0000
Subject: [PATCH 124/127] fix: petals were half a pixel off their pupil, and
 rotated opposite to its spiders

---
 specula/lib/compute_petal_ifunc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/lib/compute_petal_ifunc.py b/specula/lib/compute_petal_ifunc.py
index 308b946..840a102 100644
--- a/specula/lib/compute_petal_ifunc.py
+++ b/specula/lib/compute_petal_ifunc.py
@@ -59,13 +59,13 @@ def compute_petal_ifunc(dim, n_petals, xp=np, dtype=np.float32, angle_offset=0,
         idx = xp.where(mask)
 
     # Center coordinates
-    center = dim / 2
+    center = (dim - 1) / 2
     y, x = xp.mgrid[:dim, :dim]
     y = y - center
     x = x - center
 
     # Convert to polar coordinates
-    theta = xp.arctan2(y, x) + xp.radians(angle_offset)
+    theta = xp.arctan2(y, x) - xp.radians(angle_offset)
 
     # Wrap angles to [0, 2π]
     theta = (theta + 2*xp.pi) % (2*xp.pi)
-- 
2.43.0


From d50a83e3f29ce4a85afc0526febf85f8b86be149 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:29:53 +0000
Subject: [PATCH 125/127] fix: plate scale coefficients of mirrors with a start
 mode were those of other modes

---
 specula/lib/platescale_coeff.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/specula/lib/platescale_coeff.py b/specula/lib/platescale_coeff.py
index 0b77fb4..083f534 100644
--- a/specula/lib/platescale_coeff.py
+++ b/specula/lib/platescale_coeff.py
@@ -52,11 +52,8 @@ def platescale_coeff(dm_list, start_modes, pixel_pupil, verbose=False):
     for i in range(1, len(dm_list)):
         # Skip DMs where focus and astigmatism modes are not present
         if start_modes[i] <= 2:
-            # index of focus
-            if start_modes[i] == 0:
-                idx0 = 2
-            else:
-                idx0 = 0
+            # index of focus, DM objects always keep all the modes of their base
+            idx0 = 2
 
             bIfunc = cpuArray(dm_list[i].ifunc)
             if hasattr(dm_list[i], 'm2c') and dm_list[i].m2c is not None:
-- 
2.43.0


From caa7f8525ca4eda4f6eba99b65390250e4f5797c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:40:11 +0000
Subject: [PATCH 126/127] fix: dark hole of the apodizing phase plates was not
 between the requested working angles

---
 specula/processing_objects/apodizer_coronagraph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/apodizer_coronagraph.py b/specula/processing_objects/apodizer_coronagraph.py
index 1d8039c..8eee581 100644
--- a/specula/processing_objects/apodizer_coronagraph.py
+++ b/specula/processing_objects/apodizer_coronagraph.py
@@ -57,11 +57,12 @@ class APPCoronagraph(Coronagraph):
                             symmetric_dark_hole:bool=False, 
                             max_its:int=1000):
         target_contrast = self.xp.ones([self.fft_totsize,self.fft_totsize],dtype=self.dtype)
+        # IWA and OWA are radii
         fp_obsratio = iwa / owa
-        fp_diaratio = (owa * self.fft_res * self.fov_res) / self.fft_sampling
+        fp_diaratio = (owa * self.fft_res * 2) / self.fft_totsize
         where = make_mask(self.fft_totsize, diaratio=fp_diaratio, obsratio=fp_obsratio, xp=self.xp)
         if symmetric_dark_hole is False:
-            xc = (iwa * self.fft_res * self.fov_res)/ self.fft_sampling + 1.0
+            xc = (iwa * self.fft_res * 2) / self.fft_totsize + 1.0
             left = make_mask(self.fft_totsize, diaratio=1.0, xc=xc, xp=self.xp, square=True)
             where = self.xp.logical_and(where,left)
         target_contrast[where.astype(bool)] = contrast
-- 
2.43.0


From e43fde813e2ea5b0cbd4df448380261b04c17955 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 04:40:11 +0000
Subject: [PATCH 127/127] fix: PAPLCoronagraph with a knife edge could not be
 built

---
 specula/processing_objects/apodizer_coronagraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specula/processing_objects/apodizer_coronagraph.py b/specula/processing_objects/apodizer_coronagraph.py
index 8eee581..7f67e01 100644
--- a/specula/processing_objects/apodizer_coronagraph.py
+++ b/specula/processing_objects/apodizer_coronagraph.py
@@ -57,6 +57,8 @@ class APPCoronagraph(Coronagraph):
                             symmetric_dark_hole:bool=False, 
                             max_its:int=1000):
         target_contrast = self.xp.ones([self.fft_totsize,self.fft_totsize],dtype=self.dtype)
+        if owa is None: # up to the edge of the field
+            owa = self.fft_totsize / self.fft_res / 2
         # IWA and OWA are radii
         fp_obsratio = iwa / owa
         fp_diaratio = (owa * self.fft_res * 2) / self.fft_totsize
-- 
2.43.0

