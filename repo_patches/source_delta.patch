From 5358b13f92984d7e69faca727cdd6b73a93e5bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:32 +0000
Subject: [PATCH 001/122] fix: seconds_to_t truncated instead of rounding to
 the nearest nanosecond

---
 specula/base_time_obj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/base_time_obj.py b/specula/base_time_obj.py
index f96c255..90f1ce4 100644
--- a/specula/base_time_obj.py
+++ b/specula/base_time_obj.py
@@ -73,7 +73,7 @@ class BaseTimeObj:
         return float(t) / float(self._time_resolution)
 
     def seconds_to_t(self, seconds):
-        return int(round(seconds, ndigits=9) * self._time_resolution)
+        return int(round(round(seconds, ndigits=9) * self._time_resolution))
 
     def startMemUsageCount(self):
         if hasattr(self, 'target_device_idx') and self.target_device_idx >= 0:
-- 
2.43.0


From 36e85d94654e77e774e0f1dc77cf5d4dcc7a3cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:10 +0000
Subject: [PATCH 002/122] fix: ConvolutionKernel loaded from its cache ignored
 return_fft=False

---
 specula/data_objects/convolution_kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/data_objects/convolution_kernel.py b/specula/data_objects/convolution_kernel.py
index 334571b..5047386 100644
--- a/specula/data_objects/convolution_kernel.py
+++ b/specula/data_objects/convolution_kernel.py
@@ -362,7 +362,7 @@ class ConvolutionKernel(BaseDataObj):
             if os.path.exists(full_path):
                 print(f"Loading kernel from {full_path}")
                 self.restore(full_path, kernel_obj=self, target_device_idx=self.target_device_idx,
-                             return_fft=True)
+                             return_fft=self.return_fft)
             else:
                 print('Calculating kernel...')
                 self.calculate_lgs_map()
-- 
2.43.0


From 13a4e39ca022b229602141d114110cc87847a6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:10 +0000
Subject: [PATCH 003/122] fix: Source at infinite height could not be saved

---
 specula/data_objects/source.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/data_objects/source.py b/specula/data_objects/source.py
index bd96520..a8d23b7 100644
--- a/specula/data_objects/source.py
+++ b/specula/data_objects/source.py
@@ -78,7 +78,8 @@ class Source(BaseDataObj):
         hdr['PCOORD1'] = self.orig_polar_coordinates[1]
         hdr['MAGNITUD'] = self.magnitude
         hdr['WAVELENG'] = self.wavelengthInNm
-        hdr['HEIGHT'] = self.height
+        # FITS headers cannot store infinite values as numbers
+        hdr['HEIGHT'] = self.height if np.isfinite(self.height) else str(self.height)
         hdr['BAND'] = self.band
         hdr['ZEROPNT'] = self.zero_point
         hdr['ERR_CRD0'] = self.error_coord[0]
@@ -176,7 +177,7 @@ class Source(BaseDataObj):
         return Source(polar_coordinates=[ hdr['PCOORD0'], hdr['PCOORD1']],
                  magnitude=hdr['MAGNITUD'],
                  wavelengthInNm=hdr['WAVELENG'],
-                 height=hdr['HEIGHT'],
+                 height=float(hdr['HEIGHT']),
                  band=hdr['BAND'],
                  zero_point=hdr['ZEROPNT'],
                  error_coord=[ hdr['ERR_CRD0'], hdr['ERR_CRD1']],
-- 
2.43.0


From 7504e6025694ee890f1b6d2a21cd8d791e3fbec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:10 +0000
Subject: [PATCH 004/122] fix: M2C norm_factor was lost when saving and
 restoring

---
 specula/data_objects/m2c.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/data_objects/m2c.py b/specula/data_objects/m2c.py
index 9856c57..093f485 100644
--- a/specula/data_objects/m2c.py
+++ b/specula/data_objects/m2c.py
@@ -59,6 +59,8 @@ class M2C(BaseDataObj):
     def get_fits_header(self):
         hdr = fits.Header()
         hdr['VERSION'] = 1
+        if self.norm_factor is not None:
+            hdr['NORMFACT'] = self.norm_factor
         return hdr
 
     def save(self, filename, overwrite:bool=False):
@@ -79,5 +81,6 @@ class M2C(BaseDataObj):
             version = hdr.get('VERSION')
             if version != 1:
                 raise ValueError(f"Unknown version {version} in file {filename}")
+            norm_factor = hdr.get('NORMFACT')
             m2c = hdul[1].data
-        return M2C(m2c=m2c, target_device_idx=target_device_idx)
+        return M2C(m2c=m2c, norm_factor=norm_factor, target_device_idx=target_device_idx)
-- 
2.43.0


From 50b62c851ab982d6db6678ceb2189dcb80e99701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:10 +0000
Subject: [PATCH 005/122] fix: PupData slopes_from_intensity was lost when
 saving and restoring

---
 specula/data_objects/pupdata.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/specula/data_objects/pupdata.py b/specula/data_objects/pupdata.py
index e3b3b3d..452a10b 100644
--- a/specula/data_objects/pupdata.py
+++ b/specula/data_objects/pupdata.py
@@ -115,6 +115,7 @@ class PupData(BaseDataObj):
         hdr['VERSION'] = 2
         hdr['FSIZEX'] = self.framesize[0]
         hdr['FSIZEY'] = self.framesize[1]
+        hdr['SLPINT'] = bool(self.slopes_from_intensity)
         return hdr
 
     def save(self, filename, overwrite=False):
@@ -139,6 +140,7 @@ class PupData(BaseDataObj):
                 raise ValueError(f"Unknown version {version} in file {filename}")
 
             framesize = [int(hdr.get('FSIZEX')), int(hdr.get('FSIZEY'))]
+            slopes_from_intensity = bool(hdr.get('SLPINT', False))
             ind_pup = hdul[1].data
             radius = hdul[2].data
             cx = hdul[3].data
@@ -148,8 +150,10 @@ class PupData(BaseDataObj):
             else:
                 cy = None
 
-        return PupData(ind_pup=ind_pup, radius=radius, cx=cx, cy=cy, framesize=framesize,
+        pupdata = PupData(ind_pup=ind_pup, radius=radius, cx=cx, cy=cy, framesize=framesize,
                 target_device_idx=target_device_idx)
+        pupdata.set_slopes_from_intensity(slopes_from_intensity)
+        return pupdata
 
     @staticmethod
     def from_header(filename, target_device_idx=None):
-- 
2.43.0


From 3dad053d24391470ff5519c6cff26b5f756d78de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:24 +0000
Subject: [PATCH 006/122] fix: Intmat.restore passed slope statistics, tags and
 norm_factor to the wrong parameters

---
 specula/data_objects/intmat.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/specula/data_objects/intmat.py b/specula/data_objects/intmat.py
index 34a42e5..011ef1e 100644
--- a/specula/data_objects/intmat.py
+++ b/specula/data_objects/intmat.py
@@ -169,8 +169,11 @@ class Intmat(BaseDataObj):
                 slope_mm = hdul[2].data.copy()
                 slope_rms = hdul[3].data.copy()
             else:
-                slope_mm = slope_rms = None
-        return Intmat(intmat, slope_mm, slope_rms, pupdata_tag, subapdata_tag, norm_factor, target_device_idx=target_device_idx)
+                slope_mm = hdul['SLOPEMM'].data.copy() if 'SLOPEMM' in hdul else None
+                slope_rms = hdul['SLOPERMS'].data.copy() if 'SLOPERMS' in hdul else None
+        return Intmat(intmat, slope_mm=slope_mm, slope_rms=slope_rms,
+                      pupdata_tag=pupdata_tag, subapdata_tag=subapdata_tag,
+                      norm_factor=norm_factor, target_device_idx=target_device_idx)
 
     def generate_rec(self, nmodes=None, cut_modes=0, w_vec=None, interactive=False):
         if nmodes is not None:
-- 
2.43.0


From ea6517220cf8ab8c5861efacd1b12ae91f35f002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:12 +0000
Subject: [PATCH 007/122] fix: DataStore rounded the times saved in pickle
 format to the floating point precision

---
 specula/processing_objects/data_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/data_store.py b/specula/processing_objects/data_store.py
index 9f7cdff..72fb976 100644
--- a/specula/processing_objects/data_store.py
+++ b/specula/processing_objects/data_store.py
@@ -123,7 +123,7 @@ class DataStore(BaseProcessingObj):
         self.replay_params = replay_params
 
     def save_pickle(self):
-        times = {k: np.array(list(v.keys()), dtype=self.dtype)
+        times = {k: np.array(list(v.keys()), dtype=np.uint64)
             for k, v in self.storage.items() if isinstance(v, OrderedDict) and k is not None}
         data = {k: np.array(list(v.values()), dtype=self.dtype)
             for k, v in self.storage.items() if isinstance(v, OrderedDict) and k is not None}
-- 
2.43.0


From ee9847a2cdd3d2e57ee5f49067f9f8d7046bc70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:12 +0000
Subject: [PATCH 008/122] fix: DataStore counted the last sample twice when
 downsampling, and could store it off the grid

---
 specula/processing_objects/data_store.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/data_store.py b/specula/processing_objects/data_store.py
index 72fb976..bd4ac13 100644
--- a/specula/processing_objects/data_store.py
+++ b/specula/processing_objects/data_store.py
@@ -82,6 +82,7 @@ class DataStore(BaseProcessingObj):
             for key, value in (downsample_factor_by_input or {}).items()
         }
         self.input_sample_counters = defaultdict(int)
+        self.input_last_sample_time = {}
         self.init_storage()
 
     @classmethod
@@ -101,8 +102,11 @@ class DataStore(BaseProcessingObj):
 
     def _should_store_input(self, input_name):
         every = self.downsample_factor_by_input.get(input_name, self.downsample_factor)
-        sample_idx = self.input_sample_counters[input_name]
-        self.input_sample_counters[input_name] += 1
+        # finalize() looks again at the last sample: it must be counted only once
+        if self.input_last_sample_time.get(input_name) != self.current_time:
+            self.input_last_sample_time[input_name] = self.current_time
+            self.input_sample_counters[input_name] += 1
+        sample_idx = self.input_sample_counters[input_name] - 1
         return sample_idx % every == 0
 
     def _downsampling_for_input(self, input_name):
-- 
2.43.0


From 9972e87d43cc4c1512e8eb6d1ffc496abdbbf7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:12 +0000
Subject: [PATCH 009/122] fix: DataStore with split_size lost the samples after
 the last whole chunk

---
 specula/processing_objects/data_store.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/specula/processing_objects/data_store.py b/specula/processing_objects/data_store.py
index bd4ac13..564e1eb 100644
--- a/specula/processing_objects/data_store.py
+++ b/specula/processing_objects/data_store.py
@@ -255,6 +255,7 @@ class DataStore(BaseProcessingObj):
 
         # Perform an additional trigger to ensure all data is captured,
         # including any calculations done in other objects' finalize() methods
+        unsaved_data = len(self.storage) > 0
         self.trigger_code()
 
         if self.split_size == 0:
@@ -263,6 +264,11 @@ class DataStore(BaseProcessingObj):
             else:
                 os.makedirs(self.tn_dir_orig,exist_ok=True)
             self.save()
+        elif unsaved_data and len(self.storage) > 0:
+            # Last chunk, shorter than split_size
+            chunk_start = self.iter_counter - self.iter_counter % self.split_size
+            self.create_TN_folder(suffix=f'_{chunk_start + self.first_suffix}')
+            self.save()
 
     def check_input_names(self):
         # DataStore inputs are added dynamically via input_list;
-- 
2.43.0


From ba21728b3404c8d9110c40ecbbd9223801812f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:12 +0000
Subject: [PATCH 010/122] fix: targeted replay modified the original parameters
 and dropped elements of input lists

---
 specula/simul.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/specula/simul.py b/specula/simul.py
index cdc8039..81e7c61 100644
--- a/specula/simul.py
+++ b/specula/simul.py
@@ -810,7 +810,7 @@ class Simul():
             if key in replay_params:
                 return
 
-            replay_params[key] = params[key].copy()
+            replay_params[key] = deepcopy(params[key])
 
             # Add all inputs
             for k, _input in self.iterate_inputs(params[key]):
@@ -818,7 +818,12 @@ class Simul():
                 # Use the complete key for lookup
                 complete_key = f"{desc.obj_name}.{desc.output_key}"
                 if complete_key in datastore_outputs:
-                    replay_params[key]['inputs'][k] = 'data_source.' + datastore_outputs[complete_key]
+                    replay_output = 'data_source.' + datastore_outputs[complete_key]
+                    inputs = replay_params[key]['inputs']
+                    if isinstance(inputs[k], list):
+                        inputs[k] = [replay_output if x == _input else x for x in inputs[k]]
+                    else:
+                        inputs[k] = replay_output
                     continue
                 else:
                     add_key(desc.obj_name)
-- 
2.43.0


From 799fa5d1e0112595832bdcb92bc7fbcfb5c1f3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:18 +0000
Subject: [PATCH 011/122] fix: DynamicIntegrator and DynamicIirFilter failed on
 a gain input of one element

---
 specula/processing_objects/dynamic_iir_filter.py | 2 +-
 specula/processing_objects/dynamic_integrator.py | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/dynamic_iir_filter.py b/specula/processing_objects/dynamic_iir_filter.py
index 9e91587..758a1cb 100644
--- a/specula/processing_objects/dynamic_iir_filter.py
+++ b/specula/processing_objects/dynamic_iir_filter.py
@@ -82,4 +82,4 @@ class DynamicIirFilter(IirFilter):
                 int_gain = cpuArray(gain_input.get_value())
                 self.iir_filter_data.set_gain(int_gain)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
diff --git a/specula/processing_objects/dynamic_integrator.py b/specula/processing_objects/dynamic_integrator.py
index d8c2b68..27c6814 100644
--- a/specula/processing_objects/dynamic_integrator.py
+++ b/specula/processing_objects/dynamic_integrator.py
@@ -4,6 +4,7 @@ from specula.base_processing_obj import InputDesc, OutputDesc
 from specula.data_objects.simul_params import SimulParams
 from specula.connections import InputValue
 from specula.base_value import BaseValue
+from specula import cpuArray
 
 
 class DynamicIntegrator(Integrator):
@@ -88,7 +89,9 @@ class DynamicIntegrator(Integrator):
         try:
             gain_input = self.local_inputs['int_gain']
             if gain_input is not None and gain_input.generation_time == self.current_time:
-                int_gain = float(gain_input.value)
+                int_gain = cpuArray(gain_input.get_value())
+                if int_gain.size == 1:
+                    int_gain = int_gain.item()
                 self.iir_filter_data.set_gain(int_gain)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
-- 
2.43.0


From 660547b7b70c062bfd937bc4d3c675835446ec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:18 +0000
Subject: [PATCH 012/122] fix: LowPassFilter failed when neither n_ord nor
 amplif_fact was given

---
 specula/processing_objects/low_pass_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specula/processing_objects/low_pass_filter.py b/specula/processing_objects/low_pass_filter.py
index c733405..b178ac2 100644
--- a/specula/processing_objects/low_pass_filter.py
+++ b/specula/processing_objects/low_pass_filter.py
@@ -28,6 +28,8 @@ class LowPassFilter(IirFilter):
             iir_filter_data = IirFilterData.lpf_from_fc_and_ampl(cutoff_freq, amplif_fact,
                                                samp_freq, target_device_idx=target_device_idx)
         else:
+            if n_ord is None:
+                n_ord = 2    # Default of lpf_from_fc
             iir_filter_data = IirFilterData.lpf_from_fc(cutoff_freq, samp_freq, n_ord=n_ord,
                                                         target_device_idx=target_device_idx)
 
-- 
2.43.0


From d670f5e395f7abadbe1e11b7e51544fe8bd161ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:18 +0000
Subject: [PATCH 013/122] fix: IirFilterData.from_gain_and_ff refused scalar
 gain and forgetting factor

---
 specula/data_objects/iir_filter_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specula/data_objects/iir_filter_data.py b/specula/data_objects/iir_filter_data.py
index 1b7b19f..12f1b66 100644
--- a/specula/data_objects/iir_filter_data.py
+++ b/specula/data_objects/iir_filter_data.py
@@ -820,15 +820,15 @@ class IirFilterData(BaseDataObj):
         '''Build an IirFilterData object from a gain value/vector
         and an optional forgetting factor value/vector'''
 
-        gain = np.array(gain)
+        gain = np.atleast_1d(np.array(gain))
         n = len(gain)
 
         if ff is None:
             ff = np.ones(n)
-        elif len(ff) != n:
+        elif np.size(ff) != n:
             ff = np.full(n, ff)
         else:
-            ff = np.array(ff)
+            ff = np.atleast_1d(np.array(ff))
 
         # Filter initialization
         num = np.zeros((n, 2))
-- 
2.43.0


From b1811ecba8e314ef7d485eee5ef5badd6ed3a0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:41 +0000
Subject: [PATCH 014/122] fix: VibrationGenerator generated too few samples
 when total_time/time_step is not exact

---
 specula/processing_objects/vibration_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/vibration_generator.py b/specula/processing_objects/vibration_generator.py
index 28a9891..b3a4262 100644
--- a/specula/processing_objects/vibration_generator.py
+++ b/specula/processing_objects/vibration_generator.py
@@ -125,7 +125,7 @@ class VibrationGenerator(BaseGenerator):
 
         # Setup vibration generator
         samp_freq = 1 / simul_params.time_step
-        niter = int(simul_params.total_time / simul_params.time_step)
+        niter = int(np.ceil(np.round(simul_params.total_time / simul_params.time_step, 6)))
 
         self.time_hist = get_vibrations_time_hist(
             nmodes, psd=psd, freq=freq, seed=seed,
-- 
2.43.0


From 54e4b95f323dad1b53d5ee6944567ae943c7cf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:08 +0000
Subject: [PATCH 015/122] fix: BaseSlicer output was a view of its input, and a
 scalar for a single index

---
 specula/processing_objects/base_slicer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/base_slicer.py b/specula/processing_objects/base_slicer.py
index 2910cd6..13ebcc7 100644
--- a/specula/processing_objects/base_slicer.py
+++ b/specula/processing_objects/base_slicer.py
@@ -54,10 +54,10 @@ class BaseSlicer(BaseProcessingObj):
     def trigger_code(self):
         value = self.local_inputs['in_value'].value
         if self.indices is not None:
-            self.out_value.value = value[self.indices]
+            self.out_value.value = self.xp.atleast_1d(value[self.indices]).copy()
         elif self.slice_obj is not None:
             # Use slice object to extract the desired values
-            self.out_value.value = value[self.slice_obj]
+            self.out_value.value = value[self.slice_obj].copy()
         else:
             # No slicing, copy the whole value
             self.out_value.value = value.copy()
-- 
2.43.0


From 94c6677745af01bd31bdda8b5223e3f1a124ee62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:08 +0000
Subject: [PATCH 016/122] fix: Demodulator ignored mode_numbers for vector
 inputs

---
 specula/processing_objects/demodulator.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/specula/processing_objects/demodulator.py b/specula/processing_objects/demodulator.py
index aaa07d3..5910f50 100644
--- a/specula/processing_objects/demodulator.py
+++ b/specula/processing_objects/demodulator.py
@@ -56,12 +56,7 @@ class Demodulator(BaseProcessingObj):
         data = self.local_inputs['in_data'].get_value()
 
         # Extract data for the specified modes
-        if data.ndim > 1:
-            # Multi-dimensional data - extract modes
-            mode_data = data[self.mode_numbers]
-        else:
-            # 1D data
-            mode_data = data
+        mode_data = data[self.mode_numbers]
 
         self.data_history.append(mode_data.copy())
         self.time_history.append(t)
-- 
2.43.0


From 4870ff5e7e1ca89dd620964ee02d9ed0579df8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:19 +0000
Subject: [PATCH 017/122] fix: ElectricFieldCombinator swapped the dimensions
 of non-square fields

---
 specula/processing_objects/electric_field_combinator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/electric_field_combinator.py b/specula/processing_objects/electric_field_combinator.py
index e1bcbad..7d5393d 100644
--- a/specula/processing_objects/electric_field_combinator.py
+++ b/specula/processing_objects/electric_field_combinator.py
@@ -75,8 +75,8 @@ class ElectricFieldCombinator(BaseProcessingObj):
             first_ef = in_ef1
 
         self._out_ef.resize(
-            dimx=first_ef.A.shape[0],
-            dimy=first_ef.A.shape[1],
+            dimx=first_ef.A.shape[1],
+            dimy=first_ef.A.shape[0],
             pitch=first_ef.pixel_pitch,
         )
         self.has_list = has_list
-- 
2.43.0


From cbd719a79b41ccf90629d6b2e8535fdb60cd4a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:19 +0000
Subject: [PATCH 018/122] fix: Fresnel propagation was wrong for grids of odd
 size

---
 specula/processing_objects/atmo_propagation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/atmo_propagation.py b/specula/processing_objects/atmo_propagation.py
index 7d53b20..89e2759 100644
--- a/specula/processing_objects/atmo_propagation.py
+++ b/specula/processing_objects/atmo_propagation.py
@@ -174,8 +174,9 @@ class AtmoPropagation(BaseProcessingObj):
         L_pad = self.ef_size_padded * self.pixel_pitch
 
         df = 1 / L_pad
-        fx, fy = self.xp.meshgrid(df * self.xp.arange(-self.ef_size_padded // 2, self.ef_size_padded // 2),
-                                  df * self.xp.arange(-self.ef_size_padded // 2, self.ef_size_padded // 2))
+        # zero frequency at index N//2, as after fftshift, for odd sizes too
+        freq = df * (self.xp.arange(self.ef_size_padded) - self.ef_size_padded // 2)
+        fx, fy = self.xp.meshgrid(freq, freq)
         fsq = fx**2 + fy**2
 
         # maximal spatial frequency that can propagate in x- and y-direction
-- 
2.43.0


From 2e78b8b1f60cda0804332aca6b997a4487e01c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:19 +0000
Subject: [PATCH 019/122] fix: AtmoPropagation failed with
 mergeLayersContrib=False

---
 specula/processing_objects/atmo_propagation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/atmo_propagation.py b/specula/processing_objects/atmo_propagation.py
index 89e2759..fbf1f7f 100644
--- a/specula/processing_objects/atmo_propagation.py
+++ b/specula/processing_objects/atmo_propagation.py
@@ -313,7 +313,9 @@ class AtmoPropagation(BaseProcessingObj):
         super().post_trigger()
 
         for source_name in self.source_dict.keys():
-            self.outputs['out_'+source_name+'_ef'].generation_time = self.current_time
+            output_ef = self.outputs['out_'+source_name+'_ef']
+            for ef in output_ef if isinstance(output_ef, list) else [output_ef]:
+                ef.generation_time = self.current_time
 
     @staticmethod
     def _pressure_nasa(h_asl):
@@ -492,7 +494,7 @@ class AtmoPropagation(BaseProcessingObj):
         if not self.mergeLayersContrib:
             for name, source in self.source_dict.items():
                 self.outputs['out_'+name+'_ef'] = []
-                for _ in range(self.nAtmoLayers):
+                for _ in self.common_layer_list + self.atmo_layer_list:
                     ef = ElectricField(self.pixel_pupil_size, self.pixel_pupil_size, self.pixel_pitch, target_device_idx=self.target_device_idx)
                     ef.S0 = source.phot_density()
                     self.outputs['out_'+name+'_ef'].append(ef)
-- 
2.43.0


From 0825eebc25a503d80d8cc3c31f7a49a610eecaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:26 +0000
Subject: [PATCH 020/122] fix: AtmoPropagation failed for magnified layers
 whose size has no divisor from 2 to 5

---
 specula/processing_objects/atmo_propagation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specula/processing_objects/atmo_propagation.py b/specula/processing_objects/atmo_propagation.py
index fbf1f7f..b314438 100644
--- a/specula/processing_objects/atmo_propagation.py
+++ b/specula/processing_objects/atmo_propagation.py
@@ -504,6 +504,7 @@ class AtmoPropagation(BaseProcessingObj):
 
         self._block_size = {}
         for layer in self.atmo_layer_list + self.common_layer_list:
+            self._block_size[layer] = 1
             for div in [5, 4, 3, 2]:
                 if layer.size[0] % div == 0:
                     self._block_size[layer] = div
-- 
2.43.0


From e97ae44e124323df638c9337c2fa9caf2c7fd910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:50 +0000
Subject: [PATCH 021/122] fix: AtmoRandomPhase changed screen at each step
 after the first one, ignoring update_interval

---
 specula/processing_objects/atmo_random_phase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specula/processing_objects/atmo_random_phase.py b/specula/processing_objects/atmo_random_phase.py
index 1caa058..f966767 100644
--- a/specula/processing_objects/atmo_random_phase.py
+++ b/specula/processing_objects/atmo_random_phase.py
@@ -196,6 +196,7 @@ class AtmoRandomPhase(BaseProcessingObj):
             self.seed += 1
             self.initScreens()
             self.new_position = 0
+            self.last_position = 0
 
     def trigger_code(self):
         current_phase = self.phasescreens[self.new_position,:,:] * self.scale_coeff
-- 
2.43.0


From a485fd07b3ae1c6a8e8d347396e4514edcaeb5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:50 +0000
Subject: [PATCH 022/122] fix: PhaseScreenCube refused source_dict and never
 changed screen after the first step

---
 specula/processing_objects/phase_screen_cube.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/specula/processing_objects/phase_screen_cube.py b/specula/processing_objects/phase_screen_cube.py
index f9593d8..4a4b678 100644
--- a/specula/processing_objects/phase_screen_cube.py
+++ b/specula/processing_objects/phase_screen_cube.py
@@ -149,6 +149,15 @@ class PhaseScreenCube(BaseProcessingObj):
         return {'out_layer': OutputDesc(Layer, 'Output atmospheric phase layer (default single-source name)'),
                 'out_ef': OutputDesc(ElectricField, 'Output electric field for the line of sight (default single-source name)')}
 
+    def check_output_names(self):
+        # Output names depend on source_dict
+        pass
+
+    def checkInputTimes(self):
+        # The screen changes with time even if the pupilstop does not
+        self.get_all_inputs()
+        return True
+
     def trigger_code(self):
         current_phase = self.ef_interpolator.interpolated_ef().phaseInNm
         for output_name, layer in self.layer_outputs.items():
-- 
2.43.0


From 2ec386fd574296ddf9257a7930ab473fc65ad282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:50 +0000
Subject: [PATCH 023/122] fix: phase screens with a different outer scale or
 pixel pitch were loaded from the cache

---
 specula/lib/phasescreen_manager.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/specula/lib/phasescreen_manager.py b/specula/lib/phasescreen_manager.py
index 715694b..ea8bf50 100644
--- a/specula/lib/phasescreen_manager.py
+++ b/specula/lib/phasescreen_manager.py
@@ -27,20 +27,18 @@ def phasescreens_manager(L0, dimension, pixel_pitch, directory, xp, precision, s
             raise ValueError("The number of elements in L0 must be 1 or the same as the number of seeds!")
 
         # Construct the file names
-        phasescreen_name = f'ps_seed{xp.around(element)}_dim{xp.around(dimension)}_pixpit{pixel_pitch:.3f}_L0{float(L0i):.4f}_{precision_str}.fits'
-        phasescreen_name1 = f'ps_seed{xp.around(element)}_dim{xp.around(dimension)}_pixpit{pixel_pitch:.3f}_L0{xp.around(L0i):.4f}_{precision_str}.fits'
-        phasescreen_name2 = f'ps_seed{float(element)}_dim{xp.around(dimension)}_pixpit{pixel_pitch:.3f}_L0{float(L0i):.4f}_{precision_str}.fits'
-        phasescreen_name3 = f'ps_seed{float(element)}_dim{xp.around(dimension)}_pixpit{pixel_pitch:.3f}_L0{xp.around(L0i):.4f}_{precision_str}.fits'
+        # The file name must identify the pixel pitch: more digits are added only when needed
+        pitch_str = f'{pixel_pitch:.3f}'
+        if float(pitch_str) != float(pixel_pitch):
+            pitch_str = f'{pixel_pitch:.9g}'
+        phasescreen_name = f'ps_seed{xp.around(element)}_dim{xp.around(dimension)}_pixpit{pitch_str}_L0{float(L0i):.4f}_{precision_str}.fits'
+        phasescreen_name2 = f'ps_seed{float(element)}_dim{xp.around(dimension)}_pixpit{pitch_str}_L0{float(L0i):.4f}_{precision_str}.fits'
 
         # Check if the phase screen file exists in the directory
         if os.path.exists(os.path.join(directory, phasescreen_name)):
             phasescreen = fits.getdata(os.path.join(directory, phasescreen_name), memmap=True)
-        elif os.path.exists(os.path.join(directory, phasescreen_name1)):
-            phasescreen = fits.getdata(os.path.join(directory, phasescreen_name1), memmap=True)
         elif os.path.exists(os.path.join(directory, phasescreen_name2)):
             phasescreen = fits.getdata(os.path.join(directory, phasescreen_name2), memmap=True)
-        elif os.path.exists(os.path.join(directory, phasescreen_name3)):
-            phasescreen = fits.getdata(os.path.join(directory, phasescreen_name3), memmap=True)
         else:
             # Calculate the phase screen if it does not exist
             print('Calculating phasescreen...')
-- 
2.43.0


From 8ef53ca4fb0adf35731df6e7dc373f3e303abda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:50 +0000
Subject: [PATCH 024/122] fix: layers were too small for large pupil offsets

---
 specula/processing_objects/atmo_evolution.py          | 2 +-
 specula/processing_objects/atmo_infinite_evolution.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/atmo_evolution.py b/specula/processing_objects/atmo_evolution.py
index 6be78cc..76e0cf5 100644
--- a/specula/processing_objects/atmo_evolution.py
+++ b/specula/processing_objects/atmo_evolution.py
@@ -107,7 +107,7 @@ class AtmoEvolution(BaseProcessingObj):
         fov_rad = fov * ASEC2RAD
         self.pixel_layer = np.ceil(
             (self.pixel_pupil \
-                + 2 * np.sqrt(np.sum(np.array(pupil_position, dtype=self.dtype) * 2)) \
+                + 2 * np.sqrt(np.sum(np.array(pupil_position, dtype=self.dtype) ** 2)) \
                 / self.pixel_pitch \
                 + abs(self.pupil_distances) / self.pixel_pitch * fov_rad) / 2.0
         ) * 2.0
diff --git a/specula/processing_objects/atmo_infinite_evolution.py b/specula/processing_objects/atmo_infinite_evolution.py
index e78b4eb..3745efa 100644
--- a/specula/processing_objects/atmo_infinite_evolution.py
+++ b/specula/processing_objects/atmo_infinite_evolution.py
@@ -117,7 +117,7 @@ class AtmoInfiniteEvolution(BaseProcessingObj):
         # Compute layers dimension in pixels
         self.pixel_layer_size = np.ceil(
             (self.pixel_pupil \
-                + 2 * np.sqrt(np.sum(np.array(pupil_position, dtype=self.dtype) * 2)) \
+                + 2 * np.sqrt(np.sum(np.array(pupil_position, dtype=self.dtype) ** 2)) \
                 / self.pixel_pitch \
                 + 2.0 * abs(self.pupil_distances) / self.pixel_pitch * rad_alpha_fov) / 2.0
         ) * 2.0
-- 
2.43.0


From 3f297bba71b1504c1163ab04bacc053f4617b768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:48 +0000
Subject: [PATCH 025/122] fix: CCD lost the light of the binned pixels

---
 specula/processing_objects/ccd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/ccd.py b/specula/processing_objects/ccd.py
index fa7217f..34860a9 100644
--- a/specula/processing_objects/ccd.py
+++ b/specula/processing_objects/ccd.py
@@ -318,7 +318,8 @@ class CCD(BaseProcessingObj):
 
         if self._binning > 1:
             newshape = (intensity.shape[0] // self._binning, intensity.shape[1] // self._binning)
-            self._pixels.pixels[:] = rebin2d(intensity, newshape, xp=self.xp)
+            # rebin2d averages, while a binned pixel collects the light of all its pixels
+            self._pixels.pixels[:] = rebin2d(intensity, newshape, xp=self.xp) * self._binning ** 2
         else:
             self._pixels.pixels[:] = intensity
 
-- 
2.43.0


From 47faf1e8c02f2a611a9b9884230a674354a905a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:26 +0000
Subject: [PATCH 026/122] fix: rebin2d refused non-square arrays

---
 specula/lib/rebin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/lib/rebin.py b/specula/lib/rebin.py
index b1435f0..9efd4be 100644
--- a/specula/lib/rebin.py
+++ b/specula/lib/rebin.py
@@ -48,11 +48,11 @@ def rebin2d(a, shape, sample=False, xp=None):
         M, N = a.shape
         m, n = shape
 
-        if m<=M and n<=M:
+        if m<=M and n<=N:
             if (M//m != M/m) or (N//n != N/n):
                 raise ValueError('Resampling by non-integer factors is not supported')
             return a.reshape((m,M//m,n,N//n)).mean(3).mean(1)
-        elif m>=M and n>=M:
+        elif m>=M and n>=N:
             raise ValueError('Upsampling with sample=False is not supported')
         else:
             raise ValueError('Upsampling and downsampling in different axes it not supported')
-- 
2.43.0


From 4d6e362ccdf118f312194723aace788378406485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:26 +0000
Subject: [PATCH 027/122] fix: rebin2d sampled some wrong elements, because of
 rounding errors

---
 specula/lib/rebin.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/specula/lib/rebin.py b/specula/lib/rebin.py
index 9efd4be..c6d5ab0 100644
--- a/specula/lib/rebin.py
+++ b/specula/lib/rebin.py
@@ -40,9 +40,10 @@ def rebin2d(a, shape, sample=False, xp=None):
         return a
 
     if sample:
-        slices = [ slice(0,old, float(old)/new) for old,new in zip(a.shape,shape) ]
-        idx = xp.mgrid[slices].astype(xp.int32)
-        return a[tuple(idx)]
+        # Integer arithmetic: a floating point step selects the wrong element,
+        # or one element too many, when old/new is not exact
+        rows, cols = [ xp.arange(new) * old // new for old,new in zip(a.shape,shape) ]
+        return a[rows[:, None], cols[None, :]]
 
     else:
         M, N = a.shape
-- 
2.43.0


From dd89e580c20f910ecd59246c25f81acd53e908ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:26 +0000
Subject: [PATCH 028/122] fix: CCD added background and dark current together
 when only one of them was enabled

---
 specula/processing_objects/ccd.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/ccd.py b/specula/processing_objects/ccd.py
index 34860a9..bb324a5 100644
--- a/specula/processing_objects/ccd.py
+++ b/specula/processing_objects/ccd.py
@@ -265,8 +265,11 @@ class CCD(BaseProcessingObj):
     def apply_noise(self):
         pixels = self._pixels.pixels  # Name change, same reference
 
-        if self._background_noise or self._darkcurrent_noise:
-            pixels += (self._background_level + self._darkcurrent_level)
+        if self._background_noise:
+            pixels += self._background_level
+
+        if self._darkcurrent_noise:
+            pixels += self._darkcurrent_level
 
         if self._cte_noise:
             pixels[:] = self.xp.dot(self.xp.dot(self._cte_mat[:, :, 0], pixels), self._cte_mat[:, :, 1])
-- 
2.43.0


From 17ebdcc75ab008cb376ff63e52e20d5056dafd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:52 +0000
Subject: [PATCH 029/122] fix: CCD clock-induced charge was drawn from the
 global generator, without a seed

---
 specula/processing_objects/ccd.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/ccd.py b/specula/processing_objects/ccd.py
index bb324a5..3462396 100644
--- a/specula/processing_objects/ccd.py
+++ b/specula/processing_objects/ccd.py
@@ -49,6 +49,7 @@ class CCD(BaseProcessingObj):
                  ADU_gain: float=None,
                  ADU_bias: int=400,
                  emccd_gain: int=None,
+                 cic_seed: int=4,
                  target_device_idx: int=None,
                  precision: int=None):
         """
@@ -112,6 +113,8 @@ class CCD(BaseProcessingObj):
         emccd_gain : int, optional
             Electron-multiplying CCD gain (default is None, which sets a default value based
             on excess noise).
+        cic_seed : int, optional
+            Random seed for clock-induced charge (default is 4).
         target_device_idx : int, optional
             Target device index for computation (CPU/GPU). Default is None (uses global setting).
         precision : int, optional
@@ -220,6 +223,7 @@ class CCD(BaseProcessingObj):
         self._photon_rng = self.xp.random.default_rng(self._photon_seed)
         self._readout_rng = self.xp.random.default_rng(self._readout_seed)
         self._excess_rng = self.xp.random.default_rng(self._excess_seed)
+        self._cic_rng = self.xp.random.default_rng(cic_seed)
 
         self.inputs['in_i'] = InputValue(type=Intensity)
         self.outputs['out_pixels'] = self._pixels
@@ -275,7 +279,7 @@ class CCD(BaseProcessingObj):
             pixels[:] = self.xp.dot(self.xp.dot(self._cte_mat[:, :, 0], pixels), self._cte_mat[:, :, 1])
 
         if self._cic_noise:
-            pixels += self.xp.random.binomial(1, self._cic_level, pixels.shape)
+            pixels += self._cic_rng.binomial(1, self._cic_level, pixels.shape)
         
         if self._photon_noise:
             pixels[:] = self._photon_rng.poisson(pixels)
-- 
2.43.0


From ab3c3744ed60d76a7f41355dd02a8665c1545582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:52 +0000
Subject: [PATCH 030/122] fix: CCD pixels ignored the precision parameter

---
 specula/processing_objects/ccd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/ccd.py b/specula/processing_objects/ccd.py
index 3462396..93990b9 100644
--- a/specula/processing_objects/ccd.py
+++ b/specula/processing_objects/ccd.py
@@ -209,7 +209,8 @@ class CCD(BaseProcessingObj):
         self._cte_mat = cte_mat if cte_mat is not None else self.xp.zeros((size[0], size[1], 2), dtype=self.dtype)
         self._qe = quantum_eff
 
-        self._pixels = Pixels(size[0] // binning, size[1] // binning, target_device_idx=target_device_idx)
+        self._pixels = Pixels(size[0] // binning, size[1] // binning, target_device_idx=target_device_idx,
+                              precision=precision)
         self._integrated_i = Intensity(size[0], size[1], target_device_idx=target_device_idx, precision=precision)
         self._output_integrated_i = Intensity(size[0], size[1], target_device_idx=target_device_idx, precision=precision)
         self._photon_seed = photon_seed
-- 
2.43.0


From 330af8c2481346b574a253dd7e6b1cdb54d8ebd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:52 +0000
Subject: [PATCH 031/122] fix: DynamicDarkCalibrator never loaded dark frames,
 and failed instead of printing errors

---
 specula/processing_objects/dynamic_dark_calibrator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/dynamic_dark_calibrator.py b/specula/processing_objects/dynamic_dark_calibrator.py
index 2c72a1b..c15ba4e 100644
--- a/specula/processing_objects/dynamic_dark_calibrator.py
+++ b/specula/processing_objects/dynamic_dark_calibrator.py
@@ -193,7 +193,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
                     raise ValueError(f'Number of frames is {nframes} and must be greater than zero')
                 self.nframes = nframes
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
         try:
             input_load = self.local_inputs['in_load']
@@ -202,10 +202,10 @@ class DynamicDarkCalibrator(BaseProcessingObj):
                 if not filename.endswith('.fits'):
                     filename += '.fits'
                 fullpath = os.path.join(self.data_dir, filename)
-                self.darkframe.restore(fullpath)
+                self.darkframe.set_value(Pixels.restore(fullpath).pixels)
                 self.darkframe.generation_time = self.current_time
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {type(e).__name__}: {e}')
 
     def post_trigger(self):
         super().post_trigger()
-- 
2.43.0


From f9bd4e8f29d412c52f6760484df510829c751086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:07 +0000
Subject: [PATCH 032/122] fix: DynamicDarkCalibrator averaged wrongly when
 triggered, or given a new nframes, during an acquisition

---
 specula/processing_objects/dynamic_dark_calibrator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/dynamic_dark_calibrator.py b/specula/processing_objects/dynamic_dark_calibrator.py
index c15ba4e..ce1b174 100644
--- a/specula/processing_objects/dynamic_dark_calibrator.py
+++ b/specula/processing_objects/dynamic_dark_calibrator.py
@@ -99,6 +99,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         self.overwrite = overwrite
         self.integrated_pixels = None
         self.counter = 0
+        self.frames_in_dark = nframes
 
         # Inputs
         self.inputs['in_pixels'] = InputValue(type=Pixels)
@@ -168,7 +169,7 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         self.counter -= 1
 
         if self.counter == 0:
-            self.darkframe.pixels[:] = (self.integrated_pixels / self.nframes).astype(self.darkframe.pixels.dtype)
+            self.darkframe.pixels[:] = (self.integrated_pixels / self.frames_in_dark).astype(self.darkframe.pixels.dtype)
             self.darkframe.generation_time = self.current_time
             self.integrated_pixels *= 0
 
@@ -179,6 +180,8 @@ class DynamicDarkCalibrator(BaseProcessingObj):
         input_trigger = self.local_inputs['in_trigger']
         if input_trigger is not None and input_trigger.generation_time == self.current_time:
             self.counter = self.nframes
+            self.frames_in_dark = self.nframes
+            self.integrated_pixels *= 0
 
         input_reset = self.local_inputs['in_reset']
         if input_reset is not None and input_reset.generation_time == self.current_time:
-- 
2.43.0


From 831e64c6b0c9e6a115e50bbbebc91e5c319482af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:41 +0000
Subject: [PATCH 033/122] fix: Modalrec with POLC failed with a list of
 commands

---
 specula/processing_objects/modalrec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index 9ae7e68..90f355d 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -143,7 +143,7 @@ class Modalrec(BaseProcessingObj):
             commands = self.local_inputs['in_commands']
             commands_list = self.local_inputs['in_commands_list']
             if commands is None:
-                self.commands[:] = self.xp.hstack([x.commands for x in commands_list])
+                self.commands[:] = self.xp.hstack([x.value for x in commands_list])
             else:
                 if commands.value is None:
                     # value will be None in the first iteration
-- 
2.43.0


From 2a7c48e236094e7aac87e2f7266b7203238754e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:41 +0000
Subject: [PATCH 034/122] fix: Modalrec with POLC failed without a projection
 matrix

---
 specula/processing_objects/modalrec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index 90f355d..be8ed13 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -84,7 +84,7 @@ class Modalrec(BaseProcessingObj):
             in_commands_size = intmat.intmat.shape[1]
         self.in_commands_size = in_commands_size
 
-        if polc:
+        if polc and self.projmat is not None:
             nmodes = self.projmat.nmodes
         else:
             nmodes = self.recmat.nmodes
@@ -199,7 +199,7 @@ class Modalrec(BaseProcessingObj):
                 output_modes = self.projmat.recmat @ self.pseudo_ol_modes.value
 
             # (3) remove the effect of the commands
-            output_modes -= self.commands
+            output_modes = output_modes - self.commands
 
         else:
             output_modes = self.recmat.recmat @ self.slopes
-- 
2.43.0


From aac0ad8470e8058d5128e302b47dc279152ba584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:41 +0000
Subject: [PATCH 035/122] fix: ModalrecImplicitPolc ran, with old slopes, when
 only the commands had been refreshed

---
 specula/processing_objects/modalrec_implicit_polc.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/specula/processing_objects/modalrec_implicit_polc.py b/specula/processing_objects/modalrec_implicit_polc.py
index a2f37fc..25f416a 100644
--- a/specula/processing_objects/modalrec_implicit_polc.py
+++ b/specula/processing_objects/modalrec_implicit_polc.py
@@ -107,6 +107,13 @@ class ModalrecImplicitPolc(Modalrec):
 
     def trigger_code(self):
 
+        # Commands may be refreshed more often than slopes: see Modalrec
+        slopes = self.local_inputs['in_slopes']
+        if slopes is None:
+            slopes = self.local_inputs['in_slopes_list'][0]
+        if slopes.generation_time != self.current_time:
+            return
+
         output_modes = self.comm_mat.recmat @ self.slopes - self.h_mat.recmat @ self.commands
         self.modes.value = output_modes
         self.modes.generation_time = self.current_time
-- 
2.43.0


From 66fef50da356edbcfafbb92e85dbcdb2b4cfa7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:27 +0000
Subject: [PATCH 036/122] fix: Modalrec pseudo open loop output had the wrong
 size before the first step

---
 specula/processing_objects/modalrec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index be8ed13..85c5587 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -106,7 +106,8 @@ class Modalrec(BaseProcessingObj):
 
         # TODO static allocation but polc not supported (should use projmat)
         self.modes.value = self.xp.zeros(nmodes, dtype=self.dtype)
-        self.pseudo_ol_modes.value = self.xp.zeros(nmodes, dtype=self.dtype)
+        n_ol_modes = self.recmat.nmodes if self.recmat is not None else nmodes
+        self.pseudo_ol_modes.value = self.xp.zeros(n_ol_modes, dtype=self.dtype)
 
         if self.polc:
             self.out_comm = BaseValue('output commands from modal reconstructor',
-- 
2.43.0


From 78108aa343c9a5ed5804dca265e23ef622abbde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:49 +0000
Subject: [PATCH 037/122] fix: ModalAnalysis failed with a list of electric
 fields

---
 specula/processing_objects/modal_analysis.py | 16 ----------------
 1 file changed, 16 deletions(-)

diff --git a/specula/processing_objects/modal_analysis.py b/specula/processing_objects/modal_analysis.py
index 6269970..51439f7 100644
--- a/specula/processing_objects/modal_analysis.py
+++ b/specula/processing_objects/modal_analysis.py
@@ -176,22 +176,6 @@ class ModalAnalysis(BaseProcessingObj):
         else:
             ef_list = self.in_ef_list
             output_list = self.out_modes_list
-        if self.phase2modes._doZeroPad:
-            m = self.xp.dot(self.in_ef.phaseInNm, self.phase2modes.ifunc_inv)
-        else:
-            if self.wavelengthInNm > 0:
-                phase_in_rad = self.in_ef.phaseInNm * (2 * self.xp.pi / self.wavelengthInNm)
-                phase_in_rad *= self.phase2modes.mask_inf_func.astype(float)
-                phase_in_rad = self.unwrap_2d(phase_in_rad)
-                phase_in_nm = phase_in_rad * (self.wavelengthInNm / (2 * self.xp.pi))
-                ph = phase_in_nm[self.phase2modes.idx_inf_func]
-            else:
-                ph = self.in_ef.phaseInNm[self.phase2modes.idx_inf_func]
-
-            m = self.xp.dot(ph, self.phase2modes.ifunc_inv)
-
-        self.out_modes.value[:] = m
-        self.out_modes.generation_time = self.current_time
 
         for li, current_ef in enumerate(ef_list):
             if self.phase2modes._doZeroPad:
-- 
2.43.0


From 1c5789098500fee23e1d35bd74433f9c5a23c94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:07 +0000
Subject: [PATCH 038/122] fix: ModalAnalysis removed modes from the influence
 functions of the other objects

---
 specula/processing_objects/modal_analysis.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/modal_analysis.py b/specula/processing_objects/modal_analysis.py
index 51439f7..2343834 100644
--- a/specula/processing_objects/modal_analysis.py
+++ b/specula/processing_objects/modal_analysis.py
@@ -58,13 +58,20 @@ class ModalAnalysis(BaseProcessingObj):
             self.phase2modes = ifunc.inverse()
         elif ifunc is None and ifunc_inv is not None:
             # Use ifunc_inv directly, don't attempt to call inverse() on None
-            if nmodes is not None and nmodes != ifunc_inv.size[0]:
+            if nmodes is not None and nmodes != ifunc_inv.size[1]:
+                # Cut a copy, the original can be used by other objects
+                ifunc_inv = IFuncInv(ifunc_inv.ifunc_inv, ifunc_inv.mask_inf_func,
+                                     target_device_idx=ifunc_inv.target_device_idx,
+                                     precision=ifunc_inv.precision)
                 ifunc_inv.cut(nmodes=nmodes)
             self.phase2modes = ifunc_inv
         elif ifunc is not None and ifunc_inv is None:
             # This is the case where only ifunc is provided
             if nmodes is not None and nmodes != ifunc.size[0]:
-                ifunc.cut(nmodes=nmodes)
+                # Cut a copy, the original can be used by other objects
+                ifunc = IFunc(ifunc.influence_function, mask=ifunc.mask_inf_func, nmodes=nmodes,
+                              target_device_idx=ifunc.target_device_idx,
+                              precision=ifunc.precision)
             self.phase2modes = ifunc.inverse()
         else:  # Both are provided
             # Prioritize ifunc_inv
-- 
2.43.0


From 9c2d569ad369333a836794d16a8c8dc2cbbd001d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:24 +0000
Subject: [PATCH 039/122] fix: transferDataTo shared CPU arrays between the two
 objects when reallocating

---
 specula/base_data_obj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/base_data_obj.py b/specula/base_data_obj.py
index fcca3ce..c8dbddf 100644
--- a/specula/base_data_obj.py
+++ b/specula/base_data_obj.py
@@ -111,7 +111,7 @@ class BaseDataObj(BaseTimeObj):
                 if HtD:
                     setattr(destobj, attr, cp.asarray(self_attr))
                 if HtH:
-                    setattr(destobj, attr, np.asarray(self_attr))
+                    setattr(destobj, attr, self_attr.copy())
 
         destobj.generation_time = self.generation_time
 
-- 
2.43.0


From 9e128c13a82d3ffc33ff0b396d04b6786a6be414 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:56:17 +0000
Subject: [PATCH 040/122] fix: ShSlopec gave NaN slopes when no subaperture has
 light

---
 specula/processing_objects/sh_slopec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/sh_slopec.py b/specula/processing_objects/sh_slopec.py
index e685a03..0ba505f 100644
--- a/specula/processing_objects/sh_slopec.py
+++ b/specula/processing_objects/sh_slopec.py
@@ -273,7 +273,8 @@ class ShSlopec(Slopec):
         # Compute denominator for slopes
         subap_tot = self.xp.sum(pixels * self.mask_weighted_flat, axis=0)
         mean_subap_tot = self.xp.mean(subap_tot)
-        factor = 1.0 / subap_tot
+        lit = subap_tot > 0
+        factor = lit / self.xp.where(lit, subap_tot, 1)
 
 # TEST replacing these three lines with clamp_generic_more
 #        idx_le_0 = self.xp.where(subap_tot <= mean_subap_tot * 1e-3)[0]
-- 
2.43.0


From 17fb8a4569be9269050ec26c121d4fe112d584cc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:56:17 +0000
Subject: [PATCH 041/122] fix: ShSlopec vecWeiPixRadT failed with a list and
 with more than one row

---
 specula/processing_objects/sh_slopec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/sh_slopec.py b/specula/processing_objects/sh_slopec.py
index 0ba505f..b438bc4 100644
--- a/specula/processing_objects/sh_slopec.py
+++ b/specula/processing_objects/sh_slopec.py
@@ -64,7 +64,7 @@ class ShSlopec(Slopec):
         self.ycweights = None
         self.mask_weighted = None
         self.weighted_pix_rad = weightedPixRad
-        self.vec_wei_pix_rad_t = vecWeiPixRadT
+        self.vec_wei_pix_rad_t = None if vecWeiPixRadT is None else np.atleast_2d(vecWeiPixRadT)
         self.windowing = windowing
         self.thr_ratio_value = 0.0
         self.thr_pedestal = False
@@ -167,9 +167,9 @@ class ShSlopec(Slopec):
 
     def trigger_code(self):
         if self.vec_wei_pix_rad_t is not None:
-            idxW = self.xp.where(self.current_time_seconds > self.vec_wei_pix_rad_t[:, 1])[-1]
+            idxW = np.where(self.current_time_seconds > self.vec_wei_pix_rad_t[:, 1])[0]
             if len(idxW) > 0:
-                self.weighted_pix_rad = self.vec_wei_pix_rad_t[idxW, 0]
+                self.weighted_pix_rad = self.vec_wei_pix_rad_t[idxW[-1], 0]
                 if self.verbose:
                     print(f'self.weighted_pix_rad: {self.weighted_pix_rad}')
                 self.set_xy_weights()
-- 
2.43.0


From 8bf22bce713fb48ae8450f84c873e9ef2feb75bf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:56:17 +0000
Subject: [PATCH 042/122] fix: PyrSlopec shlike option was always rejected or
 gave NaN slopes

---
 specula/processing_objects/pyr_slopec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/pyr_slopec.py b/specula/processing_objects/pyr_slopec.py
index f32bd3c..de54485 100644
--- a/specula/processing_objects/pyr_slopec.py
+++ b/specula/processing_objects/pyr_slopec.py
@@ -44,7 +44,7 @@ class PyrSlopec(Slopec):
         if shlike and slopes_from_intensity:
             raise ValueError('Both SHLIKE and SLOPES_FROM_INTENSITY parameters are set. Only one of these should be used.')
 
-        if shlike and norm_factor != 0:
+        if shlike and norm_factor:
             raise ValueError('Both SHLIKE and NORM_FACTOR parameters are set. Only one of these should be used.')
 
         self.shlike = shlike
@@ -124,7 +124,7 @@ class PyrSlopec(Slopec):
             self.sx = factor * self.xp.concatenate([A, B])
             self.sy = factor * self.xp.concatenate([C, D])
         else:
-            if self.norm_factor is not None:
+            if self.norm_factor:
                 inv_factor[0] = self.norm_factor
                 factor = 1.0 / inv_factor[0]
             elif not self.shlike:
-- 
2.43.0


From 3a4b014d893abebfc69f2820e98f459c4041daf6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:56:17 +0000
Subject: [PATCH 043/122] fix: PyrSlopec gave NaN slopes on a dark frame

---
 specula/processing_objects/pyr_slopec.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/specula/processing_objects/pyr_slopec.py b/specula/processing_objects/pyr_slopec.py
index de54485..8a90ec5 100644
--- a/specula/processing_objects/pyr_slopec.py
+++ b/specula/processing_objects/pyr_slopec.py
@@ -120,19 +120,19 @@ class PyrSlopec(Slopec):
 
         if self.slopes_from_intensity:
             inv_factor[0] = self.total_intensity / (4 * self.nsubaps())
-            factor = 1.0 / inv_factor[0]
+            factor = 1.0 / self.xp.where(inv_factor == 0, 1, inv_factor)
             self.sx = factor * self.xp.concatenate([A, B])
             self.sy = factor * self.xp.concatenate([C, D])
         else:
             if self.norm_factor:
                 inv_factor[0] = self.norm_factor
-                factor = 1.0 / inv_factor[0]
+                factor = 1.0 / self.xp.where(inv_factor == 0, 1, inv_factor)
             elif not self.shlike:
                 inv_factor[0] = self.total_intensity /  self.nsubaps()
-                factor = 1.0 / inv_factor
+                factor = 1.0 / self.xp.where(inv_factor == 0, 1, inv_factor)
             else:
                 inv_factor[0] = self.xp.sum(self.flat_pixels[self.pup_idx])
-                factor = 1.0 / inv_factor[0]
+                factor = 1.0 / self.xp.where(inv_factor == 0, 1, inv_factor)
 
             self.sx, self.sy = self._compute_pyr_slopes(A, B, C, D, factor)
 
-- 
2.43.0


From 5d8240cf7c388aef25be55f0dc4b1d9f781b470b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:56:17 +0000
Subject: [PATCH 044/122] fix: PyrSlopec and CurWfsSlopec lost double precision

---
 specula/processing_objects/cur_wfs_slopec.py | 4 ++--
 specula/processing_objects/pyr_slopec.py     | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/specula/processing_objects/cur_wfs_slopec.py b/specula/processing_objects/cur_wfs_slopec.py
index 7c4f16a..ba889fa 100644
--- a/specula/processing_objects/cur_wfs_slopec.py
+++ b/specula/processing_objects/cur_wfs_slopec.py
@@ -111,8 +111,8 @@ class CurWfsSlopec(Slopec):
 
     def trigger_code(self):
         # Extract valid pixels according to PupData
-        i1 = self.flat_p1[self.pup_idx].astype(self.xp.float32)
-        i2 = self.flat_p2[self.pup_idx].astype(self.xp.float32)
+        i1 = self.flat_p1[self.pup_idx].astype(self.dtype)
+        i2 = self.flat_p2[self.pup_idx].astype(self.dtype)
 
         # Compute Curvature Signal: S = (I1 - I2) / (I1 + I2)
         sum_i = i1 + i2
diff --git a/specula/processing_objects/pyr_slopec.py b/specula/processing_objects/pyr_slopec.py
index 8a90ec5..3476441 100644
--- a/specula/processing_objects/pyr_slopec.py
+++ b/specula/processing_objects/pyr_slopec.py
@@ -101,10 +101,10 @@ class PyrSlopec(Slopec):
         self.flat_pixels -= self.threshold
 
         clamp_generic_less(0,0,self.flat_pixels, xp=self.xp)
-        A = self.flat_pixels[self.pup_idx0].astype(self.xp.float32)
-        B = self.flat_pixels[self.pup_idx1].astype(self.xp.float32)
-        C = self.flat_pixels[self.pup_idx2].astype(self.xp.float32)
-        D = self.flat_pixels[self.pup_idx3].astype(self.xp.float32)
+        A = self.flat_pixels[self.pup_idx0].astype(self.dtype)
+        B = self.flat_pixels[self.pup_idx1].astype(self.dtype)
+        C = self.flat_pixels[self.pup_idx2].astype(self.dtype)
+        D = self.flat_pixels[self.pup_idx3].astype(self.dtype)
 
         # Compute flux per subaperture (sum of all 4 pupils)
         flux_per_subap = A + B + C + D
-- 
2.43.0


From d0e37913188faa7e2ad07bc1b24fffaf4c444a88 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:56:17 +0000
Subject: [PATCH 045/122] fix: CurWfsSlopec and ZwfsSlopec slopes could not be
 remapped to 2D

---
 specula/processing_objects/cur_wfs_slopec.py | 2 +-
 specula/processing_objects/zwfs_slopec.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/cur_wfs_slopec.py b/specula/processing_objects/cur_wfs_slopec.py
index ba889fa..e26713b 100644
--- a/specula/processing_objects/cur_wfs_slopec.py
+++ b/specula/processing_objects/cur_wfs_slopec.py
@@ -76,7 +76,7 @@ class CurWfsSlopec(Slopec):
         self.outputs['out_pupdata'] = self.pupdata
 
         # Setup slopes display mapping (using the first pupdata as geometric reference)
-        self.slopes.single_mask = self.pupdata.single_mask()
+        self.slopes.single_mask = self.pupdata.complete_mask()
         self.slopes.display_map = self.pupdata.display_map
 
         self.flat_p1 = None
diff --git a/specula/processing_objects/zwfs_slopec.py b/specula/processing_objects/zwfs_slopec.py
index 9f1dfbd..4b3ca28 100644
--- a/specula/processing_objects/zwfs_slopec.py
+++ b/specula/processing_objects/zwfs_slopec.py
@@ -54,7 +54,7 @@ class ZwfsSlopec(Slopec):
 
         self.outputs['out_pupdata'] = self.pupdata
         
-        self.slopes.single_mask = self.pupdata.single_mask() # unsure if this is needed
+        self.slopes.single_mask = self.pupdata.complete_mask() # unsure if this is needed
         self.slopes.display_map = self.pupdata.display_map # unsure if this is needed
 
         all_idx = self.pupdata.pupil_idx(0).astype(self.xp.int64)
-- 
2.43.0


From 2c4645036ecedc88da3310ba6f388a88f016711f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:56:17 +0000
Subject: [PATCH 046/122] fix: Slopec ignored the precision for its slopes

---
 specula/processing_objects/sh_slopec.py | 2 +-
 specula/processing_objects/slopec.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/sh_slopec.py b/specula/processing_objects/sh_slopec.py
index b438bc4..a866f52 100644
--- a/specula/processing_objects/sh_slopec.py
+++ b/specula/processing_objects/sh_slopec.py
@@ -79,7 +79,7 @@ class ShSlopec(Slopec):
         self.window_int_threshold = window_int_threshold
         self.int_pixels_weight = None
 
-        self.accumulated_slopes = Slopes(self.nslopes(), target_device_idx=self.target_device_idx)
+        self.accumulated_slopes = Slopes(self.nslopes(), target_device_idx=self.target_device_idx, precision=precision)
         self.set_xy_weights()
         self.outputs['out_subapdata'] = self.subapdata
 
diff --git a/specula/processing_objects/slopec.py b/specula/processing_objects/slopec.py
index 3afe269..3292b30 100644
--- a/specula/processing_objects/slopec.py
+++ b/specula/processing_objects/slopec.py
@@ -30,7 +30,7 @@ class Slopec(BaseProcessingObj):
         self.sn = sn
         self.slopes = Slopes(
             self.nslopes(), interleave=interleave,
-            target_device_idx=self.target_device_idx
+            target_device_idx=self.target_device_idx, precision=precision
         )
         self.flux_per_subaperture_vector = BaseValue(
             value=self.xp.zeros(self.nsubaps(), dtype=self.dtype),
-- 
2.43.0


From e4693a735121535827c0ddd80accb5d3ab451df9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:56:40 +0000
Subject: [PATCH 047/122] fix: CurWfsSlopec counted one unit of flux in the
 dark pixels

---
 specula/processing_objects/cur_wfs_slopec.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/specula/processing_objects/cur_wfs_slopec.py b/specula/processing_objects/cur_wfs_slopec.py
index e26713b..9b20c73 100644
--- a/specula/processing_objects/cur_wfs_slopec.py
+++ b/specula/processing_objects/cur_wfs_slopec.py
@@ -118,9 +118,7 @@ class CurWfsSlopec(Slopec):
         sum_i = i1 + i2
 
         # Avoid division by zero
-        sum_i = self.xp.where(sum_i < 1e-9, 1.0, sum_i)
-
-        signal = (i1 - i2) / sum_i
+        signal = (i1 - i2) / self.xp.where(sum_i < 1e-9, 1.0, sum_i)
 
         # Store results
         self.slopes.slopes[:] = signal
-- 
2.43.0


From 632f6a01c84698533fefbd7a030e17f197805c4e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:56:41 +0000
Subject: [PATCH 048/122] fix: ZwfsSlopec gave NaN slopes on a dark frame

---
 specula/processing_objects/zwfs_slopec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/zwfs_slopec.py b/specula/processing_objects/zwfs_slopec.py
index 4b3ca28..a6e7eb5 100644
--- a/specula/processing_objects/zwfs_slopec.py
+++ b/specula/processing_objects/zwfs_slopec.py
@@ -91,7 +91,7 @@ class ZwfsSlopec(Slopec):
         self.subap_counts.value[0] = self.total_intensity / self.nsubaps()
 
         norm_factor = self.xp.sum(metaintensity) / self.nsubaps()
-        self.slopes.slopes = metaintensity / norm_factor
+        self.slopes.slopes = metaintensity / self.xp.where(norm_factor == 0, 1, norm_factor)
 
     def post_trigger(self):
         super().post_trigger()
-- 
2.43.0


From 36bc9bc53c9909e3464be28e1f3628d8e92e266e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:56:41 +0000
Subject: [PATCH 049/122] fix: CiaoCiaoSlopec added a tilt to the phase of odd
 size frames

---
 specula/processing_objects/ciao_ciao_slopec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/ciao_ciao_slopec.py b/specula/processing_objects/ciao_ciao_slopec.py
index 5f5118e..067b214 100644
--- a/specula/processing_objects/ciao_ciao_slopec.py
+++ b/specula/processing_objects/ciao_ciao_slopec.py
@@ -161,12 +161,12 @@ class CiaoCiaoSlopec(Slopec):
 
         # 4. Roll / Shift the sideband to the center
         shape = pixels.shape
-        shift_y = int(self.xp.rint(shape[0] / 2 - self.window_y))
-        shift_x = int(self.xp.rint(shape[1] / 2 - self.window_x))
+        shift_y = int(self.xp.rint(shape[0] // 2 - self.window_y))
+        shift_x = int(self.xp.rint(shape[1] // 2 - self.window_x))
         ft_roll = self.xp.roll(ft_filtered, (shift_y, shift_x), axis=(0, 1))
 
         # 5. Inverse FFT
-        intensity_filtered = self.xp.fft.ifft2(self.xp.fft.fftshift(ft_roll))
+        intensity_filtered = self.xp.fft.ifft2(self.xp.fft.ifftshift(ft_roll))
 
         # 6. Phase extraction
         phase = self.xp.arctan2(intensity_filtered.imag, intensity_filtered.real)
-- 
2.43.0


From 4ac8735d76201f1e7b4d3dc45262abb7395ea01c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:03:54 +0000
Subject: [PATCH 050/122] fix: EFInterpolator.update_parameters swapped the
 shifts that are not given and required the magnification

---
 specula/lib/extrapolation_2d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specula/lib/extrapolation_2d.py b/specula/lib/extrapolation_2d.py
index 2fb0240..38fc152 100644
--- a/specula/lib/extrapolation_2d.py
+++ b/specula/lib/extrapolation_2d.py
@@ -347,14 +347,14 @@ class EFInterpolator():
                           rotAnglePhInDeg=None, magnification=None):
         """Re-initialize the internal Interp2D object with new misalignment parameters."""
 
-        if magnification < 1e-6:
+        if magnification is not None and magnification < 1e-6:
             raise ValueError("Magnification must be greater than 1e-6 to avoid numerical issues.")
 
         # Retrieve current parameters if not provided
         current_rot = -self.interp.rot_angle * 180.0 / np.pi
 
-        new_x = xShiftPhInPixel if xShiftPhInPixel is not None else float(self.interp.shift_x)
-        new_y = yShiftPhInPixel if yShiftPhInPixel is not None else float(self.interp.shift_y)
+        new_x = xShiftPhInPixel if xShiftPhInPixel is not None else float(self.interp.shift_y)
+        new_y = yShiftPhInPixel if yShiftPhInPixel is not None else float(self.interp.shift_x)
         new_rot = rotAnglePhInDeg if rotAnglePhInDeg is not None else current_rot
         new_mag = magnification if magnification is not None else float(self.interp.magnification)
 
-- 
2.43.0


From ffe039e886332dec7d859ffa7cdbe87e6ee9cd47 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:03:54 +0000
Subject: [PATCH 051/122] fix: IdealDerivativeSensor left the flat pixels out
 of the mean derivative

---
 specula/processing_objects/ideal_derivative_sensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/ideal_derivative_sensor.py b/specula/processing_objects/ideal_derivative_sensor.py
index 3001ccf..b096a87 100644
--- a/specula/processing_objects/ideal_derivative_sensor.py
+++ b/specula/processing_objects/ideal_derivative_sensor.py
@@ -201,7 +201,7 @@ class IdealDerivativeSensor(BaseProcessingObj):
         dy_all = dy_all * subap_masks
 
         # Find valid pixels (non-zero derivatives) for all subapertures
-        valid_masks = ((self.xp.abs(dx_all) + self.xp.abs(dy_all)) > 0) & subap_masks
+        valid_masks = mask.ravel()[subap_indices_matrix] & subap_masks
 
         # Vectorized mean computation
         # Set invalid pixels to 0 for mean calculation
-- 
2.43.0


From cb325cc3c22c6bea396c3d2703610cf62176862a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:03:54 +0000
Subject: [PATCH 052/122] fix: Coronagraph output amplitude was wrong when the
 pupil is oversampled

---
 specula/processing_objects/abstract_coronagraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/abstract_coronagraph.py b/specula/processing_objects/abstract_coronagraph.py
index 8d898b9..eb54b47 100644
--- a/specula/processing_objects/abstract_coronagraph.py
+++ b/specula/processing_objects/abstract_coronagraph.py
@@ -1,5 +1,5 @@
 from specula.lib.extrapolation_2d import EFInterpolator
-from specula.lib.toccd import toccd
+from specula.lib.rebin import rebin2d
 
 from specula.base_processing_obj import BaseProcessingObj, InputDesc, OutputDesc
 from specula.connections import InputValue
@@ -165,7 +165,7 @@ class Coronagraph(BaseProcessingObj):
         super().post_trigger()
 
         # Then rebin if needed
-        ef_out = toccd(self.ef_out, self.out_ef.size, xp=self.xp)
+        ef_out = rebin2d(self.ef_out, self.out_ef.size, xp=self.xp)
 
         # Calculate transmission
         # PSF before masking vs PSF after masking
-- 
2.43.0


From 1f119a48731706faef6fc82f6fc70ae22852392f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:05:20 +0000
Subject: [PATCH 053/122] fix: DistributedSH failed with the default target
 device

---
 specula/processing_objects/distributed_sh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/distributed_sh.py b/specula/processing_objects/distributed_sh.py
index 289678e..0c19897 100644
--- a/specula/processing_objects/distributed_sh.py
+++ b/specula/processing_objects/distributed_sh.py
@@ -55,9 +55,9 @@ class DistributedSH(SH):
         self.sub_sh = []
 
         for i in range(n_slices):
-            if target_device_idx >= 0:
+            if self.target_device_idx >= 0:
                 num_devices = cp.cuda.runtime.getDeviceCount()
-                args['target_device_idx'] = (target_device_idx + i) % num_devices
+                args['target_device_idx'] = (self.target_device_idx + i) % num_devices
             args['subap_rows_slice'] = self.slices[i]
             self.sub_sh.append( SH(**args))
 
-- 
2.43.0


From a58613a100a92891dd2edb5d9182c9594144260c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:05:20 +0000
Subject: [PATCH 054/122] fix: DistributedSH lost the last rows when they are
 not a multiple of the number of slices

---
 specula/processing_objects/distributed_sh.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/specula/processing_objects/distributed_sh.py b/specula/processing_objects/distributed_sh.py
index 0c19897..ed210ab 100644
--- a/specula/processing_objects/distributed_sh.py
+++ b/specula/processing_objects/distributed_sh.py
@@ -38,17 +38,15 @@ class DistributedSH(SH):
         del args['self']
         del args['__class__']
 
-        # Calculate slices for each SH
-        subaps_per_sh = subap_on_diameter // n_slices
         del args['n_slices']
 
         # Initialize base class - we do not use the calculation routines,
         # but it is needed for inputs and outputs
         super().__init__(**args)
 
-        self.slices = []
-        for i in range(n_slices):
-            self.slices.append(slice( i * subaps_per_sh, (i+1) * subaps_per_sh))
+        # Calculate slices for each SH, all the rows must be covered
+        edges = [i * subap_on_diameter // n_slices for i in range(n_slices + 1)]
+        self.slices = [slice(edges[i], edges[i+1]) for i in range(n_slices)]
 
         # Initialize internal SH with the other slices.
         # If using GPUs, each one targets a different device.
-- 
2.43.0


From df4f281d405ce3bbeba4ebf2c8436e1dcb591fa0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:05:39 +0000
Subject: [PATCH 055/122] fix: ModulatedPyramid failed with any edge or tip
 defect

---
 specula/processing_objects/modulated_pyramid.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/specula/processing_objects/modulated_pyramid.py b/specula/processing_objects/modulated_pyramid.py
index 35c73e5..352ff2d 100644
--- a/specula/processing_objects/modulated_pyramid.py
+++ b/specula/processing_objects/modulated_pyramid.py
@@ -404,21 +404,21 @@ class ModulatedPyramid(BaseProcessingObj):
         dx = self.xp.sqrt(xx ** 2)
         dy = self.xp.sqrt(yy ** 2)
         idx_edge = self.xp.where((dx <= self.pyr_edge_def_ld * self.fft_res / 2) | 
-                            (dy <= self.pyr_edge_def_ld * self.fft_res / 2))[0]
-        if len(idx_edge) > 0:
+                            (dy <= self.pyr_edge_def_ld * self.fft_res / 2))
+        if len(idx_edge[0]) > 0:
             pyr_tlt[idx_edge] = self.xp.max(pyr_tlt) * self.xp.random.rand(len(idx_edge[0]))
             print(f'get_pyr_tlt: {len(idx_edge[0])} pixels set to 0 to consider pyramid imperfect edges')
 
         # distance from tip
         d = self.xp.sqrt(xx ** 2 + yy ** 2)
-        idx_tip = self.xp.where(d <= self.pyr_tip_def_ld * self.fft_res / 2)[0]
-        if len(idx_tip) > 0:
+        idx_tip = self.xp.where(d <= self.pyr_tip_def_ld * self.fft_res / 2)
+        if len(idx_tip[0]) > 0:
             pyr_tlt[idx_tip] = self.xp.max(pyr_tlt) * self.xp.random.rand(len(idx_tip[0]))
             print(f'get_pyr_tlt: {len(idx_tip[0])} pixels set to 0 to consider pyramid imperfect tip')
 
         # distance from tip
-        idx_tip_m = self.xp.where(d <= self.pyr_tip_maya_ld * self.fft_res / 2)[0]
-        if len(idx_tip_m) > 0:
+        idx_tip_m = self.xp.where(d <= self.pyr_tip_maya_ld * self.fft_res / 2)
+        if len(idx_tip_m[0]) > 0:
             pyr_tlt[idx_tip_m] = self.xp.min(pyr_tlt[idx_tip_m])
             print(f'get_pyr_tlt: {len(idx_tip_m[0])} pixels set to 0 to consider pyramid imperfect tip')
 
-- 
2.43.0


From 45e6e4dd27eac63c331fd34c57b2d14fe3467ff4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:05:39 +0000
Subject: [PATCH 056/122] fix: ModulatedPyramid linear modulation failed with a
 single step and with zero amplitude

---
 specula/processing_objects/modulated_pyramid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/modulated_pyramid.py b/specula/processing_objects/modulated_pyramid.py
index 352ff2d..dd7ee0b 100644
--- a/specula/processing_objects/modulated_pyramid.py
+++ b/specula/processing_objects/modulated_pyramid.py
@@ -488,7 +488,7 @@ class ModulatedPyramid(BaseProcessingObj):
             for rotation_idx in range(n_rotations):
                 for tt in range(self.mod_steps):
                     # Linear modulation from -mod_amp to +mod_amp
-                    tilt_value = self.mod_amp * (2 * tt / (self.mod_steps - 1) - 1)
+                    tilt_value = self.mod_amp * (2 * tt / (self.mod_steps - 1) - 1) if self.mod_steps > 1 else 0.0
 
                     if self.mod_type == 'horizontal' or (self.mod_type == 'alternating' and rotation_idx == 1):
                         # Horizontal modulation uses tilt_x
@@ -503,8 +503,8 @@ class ModulatedPyramid(BaseProcessingObj):
             # Use integrated intensity over each step interval
             self.flux_factor_vector = self.xp.zeros(self.mod_steps, dtype=self.dtype)
 
-            if self.mod_steps == 1:
-                self.flux_factor_vector[0] = 1.0
+            if self.mod_steps == 1 or self.mod_amp == 0:
+                self.flux_factor_vector[:] = 1.0
             else:
                 for tt in range(self.mod_steps):
                     # For linear modulation, use the average intensity over the step interval
-- 
2.43.0


From 9a4927bb852720694a3748e930345b6cfce3fa73 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:18:50 +0000
Subject: [PATCH 057/122] fix: ExtSourcePyramid took some points of the source
 for its face centers when their number changed

---
 specula/processing_objects/ext_source_pyramid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/ext_source_pyramid.py b/specula/processing_objects/ext_source_pyramid.py
index d1ebff3..2611287 100644
--- a/specula/processing_objects/ext_source_pyramid.py
+++ b/specula/processing_objects/ext_source_pyramid.py
@@ -293,7 +293,9 @@ class ExtSourcePyramid(ModulatedPyramid):
             # Check if we need to append face centers
             # (either first time or source was updated and lost them)
             current_size = self.ext_source_coeff.value.shape[0]
-            if self._face_centers_idx is None or self._face_centers_idx[0] >= current_size:
+            if self._face_centers_idx is None or self._face_centers_idx[-1] >= current_size \
+               or self.xp.any(self.ext_source_coeff.value[self._face_centers_idx, :3]
+                              != self._face_centers_ttf):
                 # Create face centers with flux initialized to zero
                 face_centers_with_flux = self.xp.hstack([
                     self._face_centers_ttf,
-- 
2.43.0


From e81da0f658827852a397d4d670055e6dbf228793 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:23:10 +0000
Subject: [PATCH 058/122] fix: SH images were polluted by other SH instances
 with the same buffer sizes

---
 specula/processing_objects/sh.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/specula/processing_objects/sh.py b/specula/processing_objects/sh.py
index e154f70..e33f1e0 100644
--- a/specula/processing_objects/sh.py
+++ b/specula/processing_objects/sh.py
@@ -449,6 +449,11 @@ class SH(BaseProcessingObj):
 
     def trigger_code(self):
 
+        # These buffers may be shared with other SH instances, which can leave
+        # data outside of the regions written by this one
+        self._wf3[:] = 0
+        self._psfimage[:] = 0
+
         # Work on SH rows (single-subap code is too inefficient)
 
         for i in range(self.subap_rows_slice.start, self.subap_rows_slice.stop):
-- 
2.43.0


From aaf3316143faa8746ee6982a2e7aa4d480be6d00 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:33:38 +0000
Subject: [PATCH 059/122] fix: the outer working angle of the Lyot coronagraph
 was half of the requested one

---
 specula/processing_objects/lyot_coronagraph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/lyot_coronagraph.py b/specula/processing_objects/lyot_coronagraph.py
index 6073f3b..13e32de 100644
--- a/specula/processing_objects/lyot_coronagraph.py
+++ b/specula/processing_objects/lyot_coronagraph.py
@@ -66,10 +66,11 @@ class LyotCoronagraph(Coronagraph):
         if self._knife_edge:
             fp_mask = make_mask(self.fft_totsize, diaratio=1.0, xc=1.0, xp=self.xp, square=True)
         else:
+            # Radius of the mask in focal plane pixels
             owa_oversampled = self._owa * self.fft_res * self.fov_res \
-                              if self._owa is not None else self.fft_totsize
-            fp_obsratio = self._iwa * self.fft_res * self.fov_res / owa_oversampled * 2
-            fp_diaratio = owa_oversampled / self.fft_totsize
+                              if self._owa is not None else self.fft_totsize / 2
+            fp_obsratio = self._iwa * self.fft_res * self.fov_res / owa_oversampled
+            fp_diaratio = owa_oversampled / (self.fft_totsize / 2)
             fp_mask = make_mask(self.fft_totsize, diaratio=fp_diaratio,
                                 obsratio=fp_obsratio, xp=self.xp)
         return fp_mask
-- 
2.43.0


From 51d98fb3341f6568d2662df30c5c73338bb5746d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:33:38 +0000
Subject: [PATCH 060/122] fix: the Lyot knife edge was always on the axis,
 whatever the requested working angle

---
 specula/processing_objects/lyot_coronagraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/processing_objects/lyot_coronagraph.py b/specula/processing_objects/lyot_coronagraph.py
index 13e32de..cc06663 100644
--- a/specula/processing_objects/lyot_coronagraph.py
+++ b/specula/processing_objects/lyot_coronagraph.py
@@ -64,7 +64,8 @@ class LyotCoronagraph(Coronagraph):
         # Mask centered on the crosshair between 4 pixels
         # coehrent with center_on_pixel=False in the parent class
         if self._knife_edge:
-            fp_mask = make_mask(self.fft_totsize, diaratio=1.0, xc=1.0, xp=self.xp, square=True)
+            xc = 1.0 + 2 * self._fedge * self.fft_res * self.fov_res / self.fft_totsize
+            fp_mask = make_mask(self.fft_totsize, diaratio=1.0, xc=xc, xp=self.xp, square=True)
         else:
             # Radius of the mask in focal plane pixels
             owa_oversampled = self._owa * self.fft_res * self.fov_res \
-- 
2.43.0


From 26d5c70db24dcc8e399fe08e1372c845414f4b93 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:33:38 +0000
Subject: [PATCH 061/122] fix: the inner pupil stop of coronagraphs was a
 fraction of the outer stop instead of the pupil

---
 specula/processing_objects/four_quadrant_coronagraph.py | 4 +++-
 specula/processing_objects/lyot_coronagraph.py          | 4 +++-
 specula/processing_objects/vortex_coronagraph.py        | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/four_quadrant_coronagraph.py b/specula/processing_objects/four_quadrant_coronagraph.py
index 3d72e91..187b076 100644
--- a/specula/processing_objects/four_quadrant_coronagraph.py
+++ b/specula/processing_objects/four_quadrant_coronagraph.py
@@ -64,7 +64,9 @@ class FourQuadrantCoronagraph(Coronagraph):
         return fp_mask
 
     def make_pupil_plane_mask(self):
+        # make_mask() wants the inner size as a fraction of the outer one
+        obsratio = self._inPupilStop / self._outPupilStop if self._outPupilStop > 0 else 0.0
         pp_mask = make_mask(self.fft_sampling, diaratio=self._outPupilStop,
-                            obsratio=self._inPupilStop, xp=self.xp)
+                            obsratio=obsratio, xp=self.xp)
         return pp_mask
     
\ No newline at end of file
diff --git a/specula/processing_objects/lyot_coronagraph.py b/specula/processing_objects/lyot_coronagraph.py
index cc06663..bf52885 100644
--- a/specula/processing_objects/lyot_coronagraph.py
+++ b/specula/processing_objects/lyot_coronagraph.py
@@ -77,6 +77,8 @@ class LyotCoronagraph(Coronagraph):
         return fp_mask
 
     def make_pupil_plane_mask(self):
+        # make_mask() wants the inner size as a fraction of the outer one
+        obsratio = self._inPupilStop / self._outPupilStop if self._outPupilStop > 0 else 0.0
         pp_mask = make_mask(self.fft_sampling, diaratio=self._outPupilStop,
-                            obsratio=self._inPupilStop, xp=self.xp)
+                            obsratio=obsratio, xp=self.xp)
         return pp_mask
diff --git a/specula/processing_objects/vortex_coronagraph.py b/specula/processing_objects/vortex_coronagraph.py
index 62f70b3..84517df 100644
--- a/specula/processing_objects/vortex_coronagraph.py
+++ b/specula/processing_objects/vortex_coronagraph.py
@@ -72,7 +72,9 @@ class VortexCoronagraph(Coronagraph):
         return fp_mask
 
     def make_pupil_plane_mask(self):
+        # make_mask() wants the inner size as a fraction of the outer one
+        obsratio = self._inPupilStop / self._outPupilStop if self._outPupilStop > 0 else 0.0
         pp_mask = make_mask(self.fft_sampling, diaratio=self._outPupilStop,
-                            obsratio=self._inPupilStop, xp=self.xp)
+                            obsratio=obsratio, xp=self.xp)
         return pp_mask
     
\ No newline at end of file
-- 
2.43.0


From 1ab4d38f144119f6b5a78d73f3df7f401ecffe95 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:33:38 +0000
Subject: [PATCH 062/122] fix: the pupil stop of the PAPL coronagraph was never
 applied

---
 specula/processing_objects/apodizer_coronagraph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/apodizer_coronagraph.py b/specula/processing_objects/apodizer_coronagraph.py
index 10edc51..c0e5c4b 100644
--- a/specula/processing_objects/apodizer_coronagraph.py
+++ b/specula/processing_objects/apodizer_coronagraph.py
@@ -151,9 +151,11 @@ class PAPLCoronagraph(APPCoronagraph):
                                 obsratio=fp_obsratio, xp=self.xp)
         return fp_mask
 
-    def make_pupil_stop(self):
+    def make_pupil_plane_mask(self):
+        # make_mask() wants the inner size as a fraction of the outer one
+        obsratio = self._inPupilStop / self._outPupilStop if self._outPupilStop > 0 else 0.0
         pp_mask = make_mask(self.fft_sampling, diaratio=self._outPupilStop,
-                            obsratio=self._inPupilStop, xp=self.xp)
+                            obsratio=obsratio, xp=self.xp)
         return pp_mask
 
 
-- 
2.43.0


From 7f1481cb5247a9c77dbf8dc41b35811dcd5ea7c2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:33:38 +0000
Subject: [PATCH 063/122] fix: the focal plane annulus of the PAPL coronagraph
 did not have the requested radii

---
 specula/processing_objects/apodizer_coronagraph.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/apodizer_coronagraph.py b/specula/processing_objects/apodizer_coronagraph.py
index c0e5c4b..d25a20b 100644
--- a/specula/processing_objects/apodizer_coronagraph.py
+++ b/specula/processing_objects/apodizer_coronagraph.py
@@ -144,9 +144,10 @@ class PAPLCoronagraph(APPCoronagraph):
             xc = 2*(self._fedge * self.fft_res + self.fft_totsize//2)/ self.fft_totsize
             fp_mask = make_mask(self.fft_totsize, diaratio=1.0, xc=xc, xp=self.xp, square=True)
         else:
-            owa_oversampled = self._owa * self.fft_res if self._owa is not None else self.fft_totsize
-            fp_obsratio = self._iwa / owa_oversampled
-            fp_diaratio = owa_oversampled / self.fft_totsize
+            # Radius of the mask in focal plane pixels
+            owa_oversampled = self._owa * self.fft_res if self._owa is not None else self.fft_totsize / 2
+            fp_obsratio = self._iwa * self.fft_res / owa_oversampled
+            fp_diaratio = owa_oversampled / (self.fft_totsize / 2)
             fp_mask = make_mask(self.fft_totsize, diaratio=fp_diaratio,
                                 obsratio=fp_obsratio, xp=self.xp)
         return fp_mask
-- 
2.43.0


From 8bf850dff99828638e168d6c99500277af7d9273 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:33:38 +0000
Subject: [PATCH 064/122] fix: the PAPL coronagraph with a knife edge refused
 the outer angle of the dark hole, which it needs

---
 specula/processing_objects/apodizer_coronagraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/apodizer_coronagraph.py b/specula/processing_objects/apodizer_coronagraph.py
index d25a20b..09e1b0c 100644
--- a/specula/processing_objects/apodizer_coronagraph.py
+++ b/specula/processing_objects/apodizer_coronagraph.py
@@ -114,7 +114,7 @@ class PAPLCoronagraph(APPCoronagraph):
                              f' {innerStopAsRatioOfPupil*1e+2:1.0f}% of pupil,'
                              f' outer size is {outerStopAsRatioOfPupil*1e+2:1.0f}% of pupil')
 
-        if knife_edge is True and owaInLambdaOverD is not None:
+        if knife_edge is True and fpmOWAInLambdaOverD is not None:
             raise ValueError('OWA cannot be defined for the knife-edge focal plane mask')
 
         self._knife_edge = knife_edge
-- 
2.43.0


From 393274641b6b656d75830fe4436a52c175e1b4b6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:33:38 +0000
Subject: [PATCH 065/122] fix: the dark hole of the APP coronagraph had the
 requested size only for fft_res=2

---
 specula/processing_objects/apodizer_coronagraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/apodizer_coronagraph.py b/specula/processing_objects/apodizer_coronagraph.py
index 09e1b0c..287c5dd 100644
--- a/specula/processing_objects/apodizer_coronagraph.py
+++ b/specula/processing_objects/apodizer_coronagraph.py
@@ -58,10 +58,10 @@ class APPCoronagraph(Coronagraph):
                             max_its:int=1000):
         target_contrast = self.xp.ones([self.fft_totsize,self.fft_totsize],dtype=self.dtype)
         fp_obsratio = iwa / owa
-        fp_diaratio = (owa * self.fft_res * self.fov_res) / self.fft_sampling
+        fp_diaratio = 2 * (owa * self.fft_res * self.fov_res) / self.fft_totsize
         where = make_mask(self.fft_totsize, diaratio=fp_diaratio, obsratio=fp_obsratio, xp=self.xp)
         if symmetric_dark_hole is False:
-            xc = (iwa * self.fft_res * self.fov_res)/ self.fft_sampling + 1.0
+            xc = 2 * (iwa * self.fft_res * self.fov_res) / self.fft_totsize + 1.0
             left = make_mask(self.fft_totsize, diaratio=1.0, xc=xc, xp=self.xp, square=True)
             where = self.xp.logical_and(where,left)
         target_contrast[where.astype(bool)] = contrast
-- 
2.43.0


From 4106aa1b16eff89021559ceb18ab3f258062499d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 066/122] fix: filt_modes were not removed from the modal base,
 only counted

---
 specula/lib/modal_base_generator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/specula/lib/modal_base_generator.py b/specula/lib/modal_base_generator.py
index af44cf8..327ed0e 100644
--- a/specula/lib/modal_base_generator.py
+++ b/specula/lib/modal_base_generator.py
@@ -246,6 +246,8 @@ def make_modal_base_from_ifs_fft(pupil_mask, diameter, influence_functions, r0,
 
     modes_to_be_removed = xp.zeros((number_of_modes_to_be_removed, npupil_mask), dtype=dtype)
     modes_to_be_removed[0, :] = 1.0
+    if filt_modes is not None:
+        modes_to_be_removed[zern_modes+1:, :] = filt_modes
 
     if zern_modes > 0:
         zg = ZernikeGenerator(mask_shape[0], xp=xp, dtype=dtype)
@@ -257,8 +259,11 @@ def make_modal_base_from_ifs_fft(pupil_mask, diameter, influence_functions, r0,
         for i in range(zern_modes):
             modes_to_be_removed[i+1, :] = zern_modes_cube[i].ravel()[idx_mask]
 
-        # Orthonormalize Zernike modes
+    if number_of_modes_to_be_removed > 1:
+        # Orthonormalize the modes, which are removed one at a time
         modes_to_be_removed = make_orto_modes(modes_to_be_removed, xp=xp, dtype=dtype)
+
+    if zern_modes > 0:
         # Normalize Zernike modes
         for i in range(zern_modes):
             modes_to_be_removed[i+1, :] -= xp.mean(modes_to_be_removed[i+1, :])
-- 
2.43.0


From 60c819a8e370ef5338cc75f3826ae349deb56c3a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 067/122] fix: the m2c of a modal base without Zernike modes,
 or with filt_modes, did not make its modes

---
 specula/lib/modal_base_generator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specula/lib/modal_base_generator.py b/specula/lib/modal_base_generator.py
index 327ed0e..1c4efed 100644
--- a/specula/lib/modal_base_generator.py
+++ b/specula/lib/modal_base_generator.py
@@ -269,8 +269,8 @@ def make_modal_base_from_ifs_fft(pupil_mask, diameter, influence_functions, r0,
             modes_to_be_removed[i+1, :] -= xp.mean(modes_to_be_removed[i+1, :])
             modes_to_be_removed[i+1, :] /= xp.sqrt(xp.mean(modes_to_be_removed[i+1, :]**2))
 
+    coef_zern = xp.matmul(modes_to_be_removed, pinv(influence_functions))
     if zern_modes > 0:
-        coef_zern = xp.matmul(modes_to_be_removed, pinv(influence_functions))
         modes_to_be_removed = xp.matmul(coef_zern, influence_functions)
 
     coef = xp.zeros((number_of_modes_to_be_removed, n_actuators), dtype=dtype)
@@ -355,7 +355,7 @@ def make_modal_base_from_ifs_fft(pupil_mask, diameter, influence_functions, r0,
         kl_basis = xp.vstack((zern_basis, kl_modes.T))
 
         K = xp.eye(n_actuators, dtype=dtype)
-        projection = xp.matmul(coef_zern[1:zern_modes+1, :].T, coef[1:zern_modes+1, :])
+        projection = xp.matmul(coef_zern[1:, :].T, coef[1:, :])
         K -= projection
 
         m2c_zern = coef_zern[1:zern_modes+1, :].T
@@ -365,7 +365,7 @@ def make_modal_base_from_ifs_fft(pupil_mask, diameter, influence_functions, r0,
         kl_basis = kl_modes.T
 
         K = xp.eye(n_actuators, dtype=dtype)
-        projection = xp.outer(coef[0, :], coef[0, :])
+        projection = xp.matmul(coef_zern.T, coef)
         K -= projection
 
         m2c = xp.matmul(K, Bp[:, :n_actuators-number_of_modes_to_be_removed])
-- 
2.43.0


From 380be114fcc87d199049ef7cd6e9f6b7e8256956 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:47:16 +0000
Subject: [PATCH 068/122] fix: make_mask(centeronpixel) looked for the centre
 along the constant axis

---
 specula/lib/make_mask.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/specula/lib/make_mask.py b/specula/lib/make_mask.py
index d7988e0..2107936 100644
--- a/specula/lib/make_mask.py
+++ b/specula/lib/make_mask.py
@@ -42,17 +42,17 @@ def make_mask(np_size, obsratio=0.0, diaratio=1.0, xc=0.0, yc=0.0,
 
     # Adjust center if centeronpixel is set
     if centeronpixel:
-        idx_x = closest(xc, x[:, 0], xp=xp)
-        neighbours_x = [abs(x[idx_x-1, 0] - xc), abs(x[idx_x+1, 0] - xc)]
+        idx_x = closest(xc, x[0, :], xp=xp)
+        neighbours_x = [abs(x[0, idx_x-1] - xc), abs(x[0, idx_x+1] - xc)]
         idxneigh_x = xp.argmin(xp.array(neighbours_x))
         kx = -0.5 if idxneigh_x == 0 else 0.5
-        xc = x[idx_x, 0] + kx * (x[1, 0] - x[0, 0])
+        xc = x[0, idx_x] + kx * (x[0, 1] - x[0, 0])
 
-        idx_y = closest(yc, y[0, :], xp=xp)
-        neighbours_y = [abs(y[0, idx_y-1] - yc), abs(y[0, idx_y+1] - yc)]
+        idx_y = closest(yc, y[:, 0], xp=xp)
+        neighbours_y = [abs(y[idx_y-1, 0] - yc), abs(y[idx_y+1, 0] - yc)]
         idxneigh_y = xp.argmin(xp.array(neighbours_y))
         ky = -0.5 if idxneigh_y == 0 else 0.5
-        yc = y[0, idx_y] + ky * (y[0, 1] - y[0, 0])
+        yc = y[idx_y, 0] + ky * (y[1, 0] - y[0, 0])
 
     ir = obsratio
 
-- 
2.43.0


From 909528be5591dc486d135d99db3beded4d3754dc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:47:16 +0000
Subject: [PATCH 069/122] fix: petals were rotated opposite to the spider arms
 between them

---
 specula/lib/compute_petal_ifunc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/lib/compute_petal_ifunc.py b/specula/lib/compute_petal_ifunc.py
index 308b946..8127ee6 100644
--- a/specula/lib/compute_petal_ifunc.py
+++ b/specula/lib/compute_petal_ifunc.py
@@ -65,7 +65,7 @@ def compute_petal_ifunc(dim, n_petals, xp=np, dtype=np.float32, angle_offset=0,
     x = x - center
 
     # Convert to polar coordinates
-    theta = xp.arctan2(y, x) + xp.radians(angle_offset)
+    theta = xp.arctan2(y, x) - xp.radians(angle_offset)
 
     # Wrap angles to [0, 2π]
     theta = (theta + 2*xp.pi) % (2*xp.pi)
-- 
2.43.0


From 051a7637ccfb7118305a425fece455f0e6270cd5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:53:39 +0000
Subject: [PATCH 070/122] fix: effective wind direction used only one component
 of the wind

---
 specula/lib/fsoc_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/lib/fsoc_lib.py b/specula/lib/fsoc_lib.py
index 7f8e039..1997518 100644
--- a/specula/lib/fsoc_lib.py
+++ b/specula/lib/fsoc_lib.py
@@ -44,7 +44,7 @@ def calc_effective_wind_speed(atmo_heights, wind_speed, wind_dir, object_height,
     effective_wind_1 = wind_speed * xp.sin(wind_dir_rad) + speed_at_layer * xp.sin(object_dir_rad)
     effective_wind_2 = wind_speed * xp.cos(wind_dir_rad) + speed_at_layer * xp.cos(object_dir_rad)
     effective_wind_speed = xp.sqrt(effective_wind_1 ** 2 + effective_wind_2 ** 2)
-    effective_wind_dir = xp.arctan(effective_wind_1, effective_wind_2) * 180. / xp.pi
+    effective_wind_dir = xp.arctan2(effective_wind_1, effective_wind_2) * 180. / xp.pi
 
     return effective_wind_speed, effective_wind_dir
 
-- 
2.43.0


From a76a42df8ffdbcfa609019e0685021271ae054d3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:53:39 +0000
Subject: [PATCH 071/122] fix: AnnularMask without centre and as_masked_array
 used a missing dtype

---
 specula/lib/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/lib/mask.py b/specula/lib/mask.py
index a292ac5..dd19842 100644
--- a/specula/lib/mask.py
+++ b/specula/lib/mask.py
@@ -363,7 +363,7 @@ class AnnularMask(CircularMask):
             self._maskRadius = min(self._shape) / 2.
         if self._maskCenter is None:
             self._maskCenter = 0.5 * xp.array([self._shape[0],
-                                               self._shape[1]], dtype=self.dtype)
+                                               self._shape[1]])
 
         r = self._maskRadius
         cc = self._maskCenter
-- 
2.43.0


From 387ede163de3009af064f4a1291d2b8c45e4d694 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:53:39 +0000
Subject: [PATCH 072/122] fix: GaussianConvolutionKernel could not be built
 without pupil_size_m

---
 specula/data_objects/gaussian_convolution_kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/data_objects/gaussian_convolution_kernel.py b/specula/data_objects/gaussian_convolution_kernel.py
index 8a41d35..6bfa7d2 100644
--- a/specula/data_objects/gaussian_convolution_kernel.py
+++ b/specula/data_objects/gaussian_convolution_kernel.py
@@ -15,7 +15,7 @@ class GaussianConvolutionKernel(ConvolutionKernel):
                  pxscale: float,
                  dimension: int,
                  spot_size: float,
-                 pupil_size_m: 0.0=float,
+                 pupil_size_m: float=0.0,
                  oversampling: int=1,
                  return_fft: bool=True,
                  positive_shift_tt: bool=True,
-- 
2.43.0


From c055db41643e8e8ed41599bf9235c0adb76183cb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:53:59 +0000
Subject: [PATCH 073/122] fix: 3D extended source without focus height had
 infinite focus coefficients

---
 specula/processing_objects/extended_source.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/extended_source.py b/specula/processing_objects/extended_source.py
index 2ed3591..7148d51 100644
--- a/specula/processing_objects/extended_source.py
+++ b/specula/processing_objects/extended_source.py
@@ -674,11 +674,16 @@ class ExtendedSource(BaseProcessingObj):
         if self.focus_height is None:
             return 0.0
 
-        delta_height = layer_height - self.focus_height
         focal_ratio = layer_height / self.d_tel
 
-        # From IDL formula
-        focus_coeff = delta_height / (2.0 * np.sqrt(3.0) * 8.0 * focal_ratio**2)
+        if np.isinf(self.focus_height):
+            # Limit of delta_height / layer_height for a focus at infinity
+            focus_coeff = -self.d_tel / (2.0 * np.sqrt(3.0) * 8.0 * focal_ratio)
+        else:
+            delta_height = layer_height - self.focus_height
+
+            # From IDL formula
+            focus_coeff = delta_height / (2.0 * np.sqrt(3.0) * 8.0 * focal_ratio**2)
         focus_coeff *= (2.0 * np.pi) / (self.wavelengthInNm * 1e-9)
 
         return focus_coeff
-- 
2.43.0


From 7a56a986a4833c3dcd3a9ec26a70bc7acb854401 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:53:59 +0000
Subject: [PATCH 074/122] fix: ExtendedSource failed at each step when its
 optional PSF input was not connected

---
 specula/processing_objects/extended_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/extended_source.py b/specula/processing_objects/extended_source.py
index 7148d51..b536a78 100644
--- a/specula/processing_objects/extended_source.py
+++ b/specula/processing_objects/extended_source.py
@@ -715,7 +715,7 @@ class ExtendedSource(BaseProcessingObj):
         """Update PSF if new data is available and recompute if needed"""
         if self.source_type == 'FROM_PSF':
             psf = self.local_inputs.get('psf')
-            if np.sum(self.xp.abs(psf.value)) > 0:
+            if psf is not None and np.sum(self.xp.abs(psf.value)) > 0:
                 if self.crop_psf:
                     npsf_input = psf.value.shape[0]
                     npsf_target = self.psf.value.shape[0]
-- 
2.43.0


From 411449ed31d86044040437713d1e5e3845a34de5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:53:59 +0000
Subject: [PATCH 075/122] fix: ExtendedSource overwrote the initial PSF array
 of the caller

---
 specula/processing_objects/extended_source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/extended_source.py b/specula/processing_objects/extended_source.py
index b536a78..a208400 100644
--- a/specula/processing_objects/extended_source.py
+++ b/specula/processing_objects/extended_source.py
@@ -95,7 +95,7 @@ class ExtendedSource(BaseProcessingObj):
         self.flux_threshold = flux_threshold
         self.psf = BaseValue(target_device_idx=self.target_device_idx, precision=precision)
         if initial_psf is not None:
-            self.psf.value = self.to_xp(initial_psf, dtype=self.dtype)
+            self.psf.value = self.to_xp(initial_psf, dtype=self.dtype, force_copy=True)
         else:
             self.psf.value = self.xp.zeros((3, 3), dtype=self.dtype)
             self.psf.value[1, 1] = 1.0  # Default initial PSF is a delta function
-- 
2.43.0


From a7c52a6e0445961f0a270e3be820875a9dd32142 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:53:59 +0000
Subject: [PATCH 076/122] fix: GaussianConvolutionKernel failed for a single
 lenslet

---
 specula/data_objects/gaussian_convolution_kernel.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/specula/data_objects/gaussian_convolution_kernel.py b/specula/data_objects/gaussian_convolution_kernel.py
index 6bfa7d2..c243a89 100644
--- a/specula/data_objects/gaussian_convolution_kernel.py
+++ b/specula/data_objects/gaussian_convolution_kernel.py
@@ -43,7 +43,6 @@ class GaussianConvolutionKernel(ConvolutionKernel):
         """
         Recalculates the Gaussian kernel based on current settings.
         """
-        self.dimx = max(self.dimx, 2)
         lgs_tt = [-0.5, -0.5] if not self.positive_shift_tt else [0.5, 0.5]
         self.lgs_tt = [x * self.pxscale for x in lgs_tt]
         items = [
-- 
2.43.0


From a9773f213e555546b30a484e4fc8a293869e2db2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:53:59 +0000
Subject: [PATCH 077/122] fix: Shack-Hartmann failed when the laser had no
 beacon tilt

---
 specula/processing_objects/sh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/sh.py b/specula/processing_objects/sh.py
index e33f1e0..96dfe30 100644
--- a/specula/processing_objects/sh.py
+++ b/specula/processing_objects/sh.py
@@ -397,7 +397,7 @@ class SH(BaseProcessingObj):
                 if len(self._laser_launch_tel.beacon_tt) != 0:
                     theta = self._laser_launch_tel.beacon_tt
                 else:
-                    theta = []
+                    theta = [0.0, 0.0]
                 self._kernelobj = ConvolutionKernel(dimx = self._lenslet.dimx,
                                                     dimy = self._lenslet.dimy,
                                                     pxscale = fp4_pixel_pitch * RAD2ASEC,
-- 
2.43.0


From bee29c4dca4dc042f912f9d084aa392aed8f5536 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:56:50 +0000
Subject: [PATCH 078/122] fix: as_masked_array of a mask used a missing dtype

---
 specula/lib/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/lib/mask.py b/specula/lib/mask.py
index dd19842..fcd13b6 100644
--- a/specula/lib/mask.py
+++ b/specula/lib/mask.py
@@ -32,7 +32,7 @@ class BaseMask():
         return self._mask
     
     def as_masked_array(self, xp=xp):
-        return xp.ma.array(xp.ones(self._shape, dtype=self.dtype),
+        return xp.ma.array(xp.ones(self._shape),
                            mask=self.mask())
         
     def shape(self):
-- 
2.43.0


From 9aeee0bfe5a2534c0387ffe5a057647272f55c79 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:57:23 +0000
Subject: [PATCH 079/122] fix: n_phot never chose the K band of the MAORY-1
 model from the wavelength

---
 specula/lib/n_phot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/lib/n_phot.py b/specula/lib/n_phot.py
index da3f901..4dd12de 100644
--- a/specula/lib/n_phot.py
+++ b/specula/lib/n_phot.py
@@ -184,7 +184,7 @@ def n_phot(
         # MAORY-1 model never uses Na.
 
         useNa = abs(lambda_ - 0.589e-6) < 0.0001e-6 and model != 'MAORY-1'
-        if useNa:
+        if useNa or model == 'MAORY-1':
             values = mymodel.lambda_tab
         else:
             values = mymodel.lambda_tab[0:-1]
-- 
2.43.0


From 762ecf9326092b89a8d40cf0e401c56a46f67b92 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:57:23 +0000
Subject: [PATCH 080/122] fix: band J of the MAORY-1 model could not be
 selected

---
 specula/lib/n_phot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/lib/n_phot.py b/specula/lib/n_phot.py
index 4dd12de..82486bb 100644
--- a/specula/lib/n_phot.py
+++ b/specula/lib/n_phot.py
@@ -256,7 +256,7 @@ class DefaultModel():
 class Maory1Model():
     '''based on E-SPE-ESO-276-0206 issue 1 and MAORY Tech Notes 19 Dec 2007'''
 
-    band_tab = ['V', 'R', 'I', ' J', 'H', 'K']
+    band_tab = ['V', 'R', 'I', 'J', 'H', 'K']
     lambda_tab = [0.54, 0.65, 0.80, 1.25, 1.65, 2.20]  # 1e-6
     width_tab = [.090, .130, .200, .300, .350, .400]  # 1e-6
     e0_tab = [368., 177., 119., 28.6, 10.8, 3.79]  # 1e-10
-- 
2.43.0


From d0f277a0e85f52328dea8b1a23d88fa19499216e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:05:05 +0000
Subject: [PATCH 081/122] fix: ImCalibrator added the modes below first_mode to
 the last columns

---
 specula/processing_objects/im_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/im_calibrator.py b/specula/processing_objects/im_calibrator.py
index 95ab6a4..91a00ee 100644
--- a/specula/processing_objects/im_calibrator.py
+++ b/specula/processing_objects/im_calibrator.py
@@ -179,7 +179,7 @@ class ImCalibrator(BaseProcessingObj):
 
         if len(idx)>0:
             mode = int(idx[0]) - self.first_mode
-            if mode < self.nmodes:
+            if 0 <= mode < self.nmodes:
                 self.intmat.modes[mode] += slopes / commands[idx]
                 self.count_commands[mode] += 1
 
-- 
2.43.0


From 125aa8b845bc0b2a0f1f308a76f7061119e20402 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:05:05 +0000
Subject: [PATCH 082/122] fix: ImCalibrator crashed at the first trigger when
 verbose

---
 specula/processing_objects/im_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/im_calibrator.py b/specula/processing_objects/im_calibrator.py
index 91a00ee..1da4ec4 100644
--- a/specula/processing_objects/im_calibrator.py
+++ b/specula/processing_objects/im_calibrator.py
@@ -171,7 +171,7 @@ class ImCalibrator(BaseProcessingObj):
         if self.intmat.nslopes == 0:
             self.intmat.set_nslopes(len(slopes))
             if self.verbose:
-                print(f"Initialized interaction matrix: {self.im.value.shape}")
+                print(f"Initialized interaction matrix: {self.intmat.intmat.shape}")
             for i in range(self.nmodes):
                 self.single_im[i].set_nslopes(len(slopes))
 
-- 
2.43.0


From f88ab76faf180275c8da825725091f3049a1fc5a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:05:05 +0000
Subject: [PATCH 083/122] fix: MultiImCalibrator joined data_dir twice and
 could not save in a relative one

---
 specula/processing_objects/multi_im_calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/multi_im_calibrator.py b/specula/processing_objects/multi_im_calibrator.py
index 05e3fac..f311fb3 100644
--- a/specula/processing_objects/multi_im_calibrator.py
+++ b/specula/processing_objects/multi_im_calibrator.py
@@ -145,7 +145,7 @@ class MultiImCalibrator(BaseProcessingObj):
                 if self.count_commands[i][mode] > 0:
                     im.modes[mode] /= self.count_commands[i][mode]
             if self.im_paths[i]:
-                im.save(os.path.join(self.data_dir, self.im_paths[i]), overwrite=self.overwrite)
+                im.save(self.im_paths[i], overwrite=self.overwrite)
             im.generation_time = self.current_time
 
         if self.full_im_path:
@@ -158,7 +158,7 @@ class MultiImCalibrator(BaseProcessingObj):
             self.outputs['out_intmat_full'].generation_time = self.current_time
             if self.full_im_path:
                 self.outputs['out_intmat_full'].save(
-                    os.path.join(self.data_dir, self.full_im_path), overwrite=self.overwrite)
+                    self.full_im_path, overwrite=self.overwrite)
 
     def setup(self):
         super().setup()
-- 
2.43.0


From a01df0fa6990d56358e4597a1c21e338ea859614 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:05:05 +0000
Subject: [PATCH 084/122] fix: MultiRecCalibrator joined data_dir twice and
 could not save in a relative one

---
 specula/processing_objects/multi_rec_calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/multi_rec_calibrator.py b/specula/processing_objects/multi_rec_calibrator.py
index e06a9a2..3e9ebff 100644
--- a/specula/processing_objects/multi_rec_calibrator.py
+++ b/specula/processing_objects/multi_rec_calibrator.py
@@ -76,7 +76,7 @@ class MultiRecCalibrator(BaseProcessingObj):
         for i, intmat in enumerate(ims):
             if self.rec_path(i):
                 rec = intmat.generate_rec(self._nmodes)
-                rec.save(os.path.join(self._data_dir, self.rec_path(i)), overwrite=self._overwrite)
+                rec.save(self.rec_path(i), overwrite=self._overwrite)
 
         full_intmat = self.local_inputs['full_intmat']
 
@@ -85,7 +85,7 @@ class MultiRecCalibrator(BaseProcessingObj):
         full_rec_path = self.full_rec_path()
         if full_rec_path:
             fullrec = full_intmat.generate_rec(self._nmodes)
-            fullrec.save(os.path.join(self._data_dir, full_rec_path), overwrite=self._overwrite)
+            fullrec.save(full_rec_path, overwrite=self._overwrite)
 
     def setup(self):
         super().setup()
-- 
2.43.0


From d3277ef504ecfd3fbf58378dfafc4b8e37f617bc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:05:05 +0000
Subject: [PATCH 085/122] fix: MultiRecCalibrator created its data directory
 only after saving in it

---
 specula/processing_objects/multi_rec_calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/multi_rec_calibrator.py b/specula/processing_objects/multi_rec_calibrator.py
index 3e9ebff..487d27e 100644
--- a/specula/processing_objects/multi_rec_calibrator.py
+++ b/specula/processing_objects/multi_rec_calibrator.py
@@ -73,6 +73,8 @@ class MultiRecCalibrator(BaseProcessingObj):
     def finalize(self):
         ims = self.local_inputs['intmat_list']
 
+        os.makedirs(self._data_dir, exist_ok=True)
+
         for i, intmat in enumerate(ims):
             if self.rec_path(i):
                 rec = intmat.generate_rec(self._nmodes)
@@ -80,8 +82,6 @@ class MultiRecCalibrator(BaseProcessingObj):
 
         full_intmat = self.local_inputs['full_intmat']
 
-        os.makedirs(self._data_dir, exist_ok=True)
-
         full_rec_path = self.full_rec_path()
         if full_rec_path:
             fullrec = full_intmat.generate_rec(self._nmodes)
-- 
2.43.0


From 2e70d75f5f92e7e0f52cb6bdca3e9e40fd9f774c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:05:05 +0000
Subject: [PATCH 086/122] fix: MMSE reconstructor without noise used an
 identity of the wrong size

---
 specula/lib/mmse_reconstructor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specula/lib/mmse_reconstructor.py b/specula/lib/mmse_reconstructor.py
index f425b63..3d26175 100644
--- a/specula/lib/mmse_reconstructor.py
+++ b/specula/lib/mmse_reconstructor.py
@@ -76,7 +76,7 @@ def compute_mmse_reconstructor(interaction_matrix, c_atm, xp, dtype,
             # Default: identity matrix (no noise)
             if verbose:  # pragma: no cover
                 print("No c_noise provided, using identity matrix")
-            c_noise_inv = xp.eye(A.shape[1], dtype=dtype)
+            c_noise_inv = xp.eye(n_slopes, dtype=dtype)
 
         is_diag_atm = xp.all(xp.abs(xp.diag(xp.diag(c_atm)) - c_atm) < 1e-10)
 
@@ -96,7 +96,7 @@ def compute_mmse_reconstructor(interaction_matrix, c_atm, xp, dtype,
     else:
         # Matrices are already inverted
         c_atm_inv = c_atm
-        c_noise_inv = c_noise if c_noise is not None else xp.eye(A.shape[1], dtype=dtype)
+        c_noise_inv = c_noise if c_noise is not None else xp.eye(n_slopes, dtype=dtype)
 
     # Compute H = A' Cz^(-1) A + Cx^(-1)
     if verbose:  # pragma: no cover
-- 
2.43.0


From 9f62d09970e8e62c4e468f54d86317eeee285a59 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:05:05 +0000
Subject: [PATCH 087/122] fix: MMSE reconstructor took small covariances for
 diagonal ones

---
 specula/lib/mmse_reconstructor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/specula/lib/mmse_reconstructor.py b/specula/lib/mmse_reconstructor.py
index 3d26175..6238d70 100644
--- a/specula/lib/mmse_reconstructor.py
+++ b/specula/lib/mmse_reconstructor.py
@@ -57,7 +57,8 @@ def compute_mmse_reconstructor(interaction_matrix, c_atm, xp, dtype,
     if not c_inverse:
         # Check if matrices are diagonal
         if c_noise is not None:
-            is_diag_noise = xp.all(xp.abs(xp.diag(xp.diag(c_noise)) - c_noise) < 1e-10)
+            is_diag_noise = xp.all(xp.abs(xp.diag(xp.diag(c_noise)) - c_noise)
+                                   <= 1e-10 * xp.max(xp.abs(c_noise)))
 
             if is_diag_noise:
                 if verbose:  # pragma: no cover
@@ -78,7 +79,8 @@ def compute_mmse_reconstructor(interaction_matrix, c_atm, xp, dtype,
                 print("No c_noise provided, using identity matrix")
             c_noise_inv = xp.eye(n_slopes, dtype=dtype)
 
-        is_diag_atm = xp.all(xp.abs(xp.diag(xp.diag(c_atm)) - c_atm) < 1e-10)
+        is_diag_atm = xp.all(xp.abs(xp.diag(xp.diag(c_atm)) - c_atm)
+                             <= 1e-10 * xp.max(xp.abs(c_atm)))
 
         if is_diag_atm:
             if verbose:  # pragma: no cover
-- 
2.43.0


From 5a14d80051bff104bcff850491ee8b8e9fc7d444 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:07:14 +0000
Subject: [PATCH 088/122] fix: RecCalibrator could not use a list of noise
 variances

---
 specula/data_objects/intmat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/data_objects/intmat.py b/specula/data_objects/intmat.py
index 011ef1e..c2f76a7 100644
--- a/specula/data_objects/intmat.py
+++ b/specula/data_objects/intmat.py
@@ -218,7 +218,7 @@ class Intmat(BaseDataObj):
                 noise_variance = None
                 diag_elements = []
                 for elem in c_noise:
-                    if hasattr(elem, '__len__') and not isinstance(elem, str):
+                    if np.ndim(elem) > 0:
                         # array/list
                         diag_elements.extend(elem)
                     else:
-- 
2.43.0


From 1e0037ac694bea7d4a679a808f051d6649de21bb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:07:14 +0000
Subject: [PATCH 089/122] fix: a vector of noise variances broke the MMSE
 reconstructor

---
 specula/data_objects/intmat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/data_objects/intmat.py b/specula/data_objects/intmat.py
index c2f76a7..10de607 100644
--- a/specula/data_objects/intmat.py
+++ b/specula/data_objects/intmat.py
@@ -238,7 +238,7 @@ class Intmat(BaseDataObj):
                              f'intmat shape {intmat.shape}')
         else:
             noise_variance = None
-            c_noise_mat = c_noise
+            c_noise_mat = self.xp.diag(c_noise) if c_noise.ndim == 1 else c_noise
         # compute MMSE reconstructor
         recmat = compute_mmse_reconstructor(self.to_xp(intmat), c_atm, self.xp,
                                             self.dtype, noise_variance=noise_variance,
-- 
2.43.0


From 68d6bd718861b70482b364e274485529f91b597c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:27:55 +0000
Subject: [PATCH 090/122] fix: MultiImCalibrator could not run, its list output
 was declared as a single matrix

---
 specula/processing_objects/multi_im_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/multi_im_calibrator.py b/specula/processing_objects/multi_im_calibrator.py
index f311fb3..660b436 100644
--- a/specula/processing_objects/multi_im_calibrator.py
+++ b/specula/processing_objects/multi_im_calibrator.py
@@ -109,7 +109,7 @@ class MultiImCalibrator(BaseProcessingObj):
 
     @classmethod
     def output_names(cls):
-        return {'out_intmat_list': OutputDesc(Intmat, 'List of per-WFS/sensor interaction matrices'),
+        return {'out_intmat_list': OutputDesc(list, 'List of per-WFS/sensor interaction matrices'),
                 'out_intmat_full': OutputDesc(Intmat, 'Full stacked interaction matrix from all sensors')}
 
     def trigger_code(self):
-- 
2.43.0


From feaba825b7a4a37617e19af50e3686c4b5afe1a8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:27:55 +0000
Subject: [PATCH 091/122] fix: pyramid pupil calibration saw a central
 obstruction in small filled pupils

---
 specula/processing_objects/pyr_pupdata_calibrator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/specula/processing_objects/pyr_pupdata_calibrator.py b/specula/processing_objects/pyr_pupdata_calibrator.py
index ed283c3..bfcb7ae 100644
--- a/specula/processing_objects/pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/pyr_pupdata_calibrator.py
@@ -349,12 +349,19 @@ class PyrPupdataCalibrator(BaseProcessingObj):
         r = self.xp.sqrt((x - center[0])**2 + (y - center[1])**2)
 
         profile = self.xp.zeros(n_bins)
+        filled = []
         for i in range(n_bins):
             r_inner = (i / n_bins) * max_radius
             r_outer = ((i + 1) / n_bins) * max_radius
             mask = (r >= r_inner) & (r < r_outer)
             if self.xp.any(mask):
                 profile[i] = self.xp.mean(image[mask])
+                filled.append(i)
+
+        # Rings too thin to contain any pixel would look dark
+        if filled:
+            filled = self.xp.array(filled)
+            profile = self.xp.interp(self.xp.arange(n_bins), filled, profile[filled])
 
         return self.xp.array(profile)
 
-- 
2.43.0


From 4b032df249b59f8539f785396951e2ce498fd939 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 092/122] fix: DynamicPyrPupdataCalibrator could not run
 without an integration time

---
 specula/processing_objects/dynamic_pyr_pupdata_calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
index cb6df5a..3d76409 100644
--- a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
@@ -164,7 +164,7 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
 
         # Update output params with current values
         self.outputs['out_params'].value = {
-            'dt': self.t_to_seconds(self.dt),
+            'dt': None if self.dt is None else self.t_to_seconds(self.dt),
             'thr1': self.thr1,
             'thr2': self.thr2,
             'status': self.status_string,
-- 
2.43.0


From aa4b70aa8b20bceea04f5678d1dbe07fa138f79c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 22:28:28 +0000
Subject: [PATCH 093/122] fix: DynamicPyrPupdataCalibrator crashed while
 reporting a bad parameter

---
 .../processing_objects/dynamic_pyr_pupdata_calibrator.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
index 3d76409..ebf16a6 100644
--- a/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
+++ b/specula/processing_objects/dynamic_pyr_pupdata_calibrator.py
@@ -129,21 +129,21 @@ class DynamicPyrPupdataCalibrator(PyrPupdataCalibrator):
             if input_dt is not None and input_dt.generation_time == self.current_time:
                 self.dt = self.seconds_to_t(float(input_dt.value))
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {e.__class__.__name__}: {e}')
 
         try:
             input_thr1 = self.local_inputs['in_thr1']
             if input_thr1 is not None and input_thr1.generation_time == self.current_time:
                 self.thr1 = float(input_thr1.value)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {e.__class__.__name__}: {e}')
 
         try:
             input_thr2 = self.local_inputs['in_thr2']
             if input_thr2 is not None and input_thr2.generation_time == self.current_time:
                 self.thr2 = float(input_thr2.value)
         except Exception as e:
-            print(f'Exception: {e.__name__}: {e}')
+            print(f'Exception: {e.__class__.__name__}: {e}')
 
     def trigger_code(self):
 
-- 
2.43.0


From 530047fc9805650836850ce82c02104208bf2ff6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:24:57 +0000
Subject: [PATCH 094/122] fix: results of FieldAnalyser for nearby sources were
 written to the same file

---
 specula/field_analyser.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/specula/field_analyser.py b/specula/field_analyser.py
index 6b44c6f..7086c17 100644
--- a/specula/field_analyser.py
+++ b/specula/field_analyser.py
@@ -9,6 +9,16 @@ import specula
 from specula.simul import Simul
 from specula.lib.calc_psf import calc_psf_geometry
 
+def _exact(value, digits):
+    """
+    Rounded to the given number of digits, unless that would lose something.
+    """
+    text = f'{value + 0.0:.{digits}f}'
+    if float(text) != value:
+        text = repr(float(value))
+    return text
+
+
 class FieldAnalyser:
     """
     Class to analyze field PSF, modal analysis, and phase cubes
@@ -107,9 +117,9 @@ class FieldAnalyser:
             Tuple of (psf_filename, sr_filename) without .fits extension
         """
         r, theta = source_dict['polar_coordinates']
-        psf_filename = f"psf_r{r:.1f}t{theta:.1f}_pix{self.psf_pixel_size_mas:.2f}mas_wl{self.wavelength_nm:.0f}nm"
-        sr_filename = f"sr_r{r:.1f}t{theta:.1f}_pix{self.psf_pixel_size_mas:.2f}mas_wl{self.wavelength_nm:.0f}nm"
-        return psf_filename, sr_filename
+        name = (f"r{_exact(r, 1)}t{_exact(theta, 1)}_pix{_exact(self.psf_pixel_size_mas, 2)}mas"
+                f"_wl{_exact(self.wavelength_nm, 0)}nm")
+        return f"psf_{name}", f"sr_{name}"
 
     def _get_modal_filename(self, source_dict: dict, modal_params: dict) -> str:
         """
@@ -123,7 +133,7 @@ class FieldAnalyser:
             Filename without .fits extension
         """
         r, theta = source_dict['polar_coordinates']
-        modal_filename = f"modal_r{r:.1f}t{theta:.1f}"
+        modal_filename = f"modal_r{_exact(r, 1)}t{_exact(theta, 1)}"
 
         # Add modal parameters to filename
         if 'nmodes' in modal_params:
@@ -164,7 +174,7 @@ class FieldAnalyser:
             Filename without .fits extension
         """
         r, theta = source_dict['polar_coordinates']
-        cube_filename = f"cube_r{r:.1f}t{theta:.1f}_wl{self.wavelength_nm:.0f}nm"
+        cube_filename = f"cube_r{_exact(r, 1)}t{_exact(theta, 1)}_wl{_exact(self.wavelength_nm, 0)}nm"
         return cube_filename
 
     def _build_replay_params_from_datastore(self) -> dict:
-- 
2.43.0


From 3dea2000accf813cde50d112d2b50fa517c8f5cf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:24:57 +0000
Subject: [PATCH 095/122] fix: FieldAnalyser crashed with negative polar angles

---
 specula/field_analyser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specula/field_analyser.py b/specula/field_analyser.py
index 7086c17..4b629ee 100644
--- a/specula/field_analyser.py
+++ b/specula/field_analyser.py
@@ -12,11 +12,13 @@ from specula.lib.calc_psf import calc_psf_geometry
 def _exact(value, digits):
     """
     Rounded to the given number of digits, unless that would lose something.
+    A minus sign is written as "m", since "-" separates the file name
+    from the output name in the DataStore inputs.
     """
     text = f'{value + 0.0:.{digits}f}'
     if float(text) != value:
         text = repr(float(value))
-    return text
+    return text.replace('-', 'm')
 
 
 class FieldAnalyser:
-- 
2.43.0


From d44919927dfd0311dad03992b92099fff52b1895 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:24:57 +0000
Subject: [PATCH 096/122] fix: FieldAnalyser returned PSFs integrated from
 another start time

---
 specula/field_analyser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/field_analyser.py b/specula/field_analyser.py
index 4b629ee..912661a 100644
--- a/specula/field_analyser.py
+++ b/specula/field_analyser.py
@@ -120,7 +120,7 @@ class FieldAnalyser:
         """
         r, theta = source_dict['polar_coordinates']
         name = (f"r{_exact(r, 1)}t{_exact(theta, 1)}_pix{_exact(self.psf_pixel_size_mas, 2)}mas"
-                f"_wl{_exact(self.wavelength_nm, 0)}nm")
+                f"_wl{_exact(self.wavelength_nm, 0)}nm_start{_exact(self.start_time, 1)}")
         return f"psf_{name}", f"sr_{name}"
 
     def _get_modal_filename(self, source_dict: dict, modal_params: dict) -> str:
-- 
2.43.0


From 89be0965bf20abf7aeac8884fa702fb65247fe49 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:26:38 +0000
Subject: [PATCH 097/122] fix: FieldAnalyser returned modal coefficients
 computed with other modal parameters

---
 specula/field_analyser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/specula/field_analyser.py b/specula/field_analyser.py
index 912661a..07b4c2e 100644
--- a/specula/field_analyser.py
+++ b/specula/field_analyser.py
@@ -1,4 +1,7 @@
 
+import hashlib
+import json
+
 import numpy as np
 from pathlib import Path
 from typing import Dict, Optional, Tuple
@@ -163,6 +166,10 @@ class FieldAnalyser:
         if 'obsratio' in modal_params:
             modal_filename += f"_obs{modal_params['obsratio']:.2f}"
 
+        # The names above do not tell all the parameters apart
+        digest = hashlib.md5(json.dumps(modal_params, sort_keys=True, default=repr).encode())
+        modal_filename += f"_{digest.hexdigest()[:8]}"
+
         return modal_filename
 
     def _get_cube_filename(self, source_dict: dict) -> str:
-- 
2.43.0


From 16e1e3fab02a05ddb1a184ee69a676e789100826 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:35:09 +0000
Subject: [PATCH 098/122] fix: Modalrec cut and filtered the reconstruction
 matrix it was given, shared with other objects

---
 specula/processing_objects/modalrec.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index 85c5587..9cffc0c 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -1,3 +1,5 @@
+import copy
+
 from specula.base_processing_obj import BaseProcessingObj, InputDesc, OutputDesc
 from specula.base_value import BaseValue
 from specula.connections import InputList, InputValue
@@ -53,6 +55,8 @@ class Modalrec(BaseProcessingObj):
 
             if ncutmodes:
                 if recmat is not None:
+                    # the object passed by the user is not modified
+                    recmat = copy.copy(recmat)
                     recmat.reduce_size(ncutmodes)
                 else:
                     print('recmat cannot be reduced because it is null.')
@@ -69,6 +73,7 @@ class Modalrec(BaseProcessingObj):
                     raise ValueError('dmNumber (>0) must be defined if projmat_tag is not defined!')
 
         if filtmat is not None and recmat is not None:
+            recmat = copy.copy(recmat)
             recmat.recmat = recmat.recmat @ filtmat
             print('recmat updated with filmat!')
 
-- 
2.43.0


From 309960590f2ed31f014e6d7afe62a7cfeb5a8d11 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:35:09 +0000
Subject: [PATCH 099/122] fix: Recmat ignored the precision of the simulation

---
 specula/data_objects/recmat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/data_objects/recmat.py b/specula/data_objects/recmat.py
index 8453520..ba4ff68 100644
--- a/specula/data_objects/recmat.py
+++ b/specula/data_objects/recmat.py
@@ -22,7 +22,7 @@ class Recmat(BaseDataObj):
         Initialize a :class:`~specula.data_objects.recmat.Recmat` object.
         """
         super().__init__(target_device_idx=target_device_idx, precision=precision)
-        self.recmat = self.to_xp(recmat)
+        self.recmat = self.to_xp(recmat, dtype=self.dtype)
         self.norm_factor = norm_factor
         self.proj_list = []
         self.modes2recLayer = None
-- 
2.43.0


From 2db5a23977837033474d8e96ebfcd93734dcca87 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:35:09 +0000
Subject: [PATCH 100/122] fix: radial profiles ignored the requested precision

---
 specula/lib/radial_profile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/specula/lib/radial_profile.py b/specula/lib/radial_profile.py
index 639847d..41b7579 100644
--- a/specula/lib/radial_profile.py
+++ b/specula/lib/radial_profile.py
@@ -60,6 +60,9 @@ def compute_radial_profile(image, center_in_px_y=None, center_in_px_x=None,
     # Compute the mean radial distance in each bin
     radial_distance = sum_distance_in_radial_bin[valid_bins] / n_px_in_radial_bin
 
+    profile = profile.astype(dtype, copy=False)
+    radial_distance = radial_distance.astype(dtype, copy=False)
+
     if return_counts:
         return profile, radial_distance, n_px_in_radial_bin
     return profile, radial_distance
-- 
2.43.0


From 6afe31f3039024ec1a40cbb8c855519553503f87 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:41:42 +0000
Subject: [PATCH 101/122] fix: PyrSlopec changed the pupil data it was given,
 shared with other objects

---
 specula/processing_objects/pyr_slopec.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/pyr_slopec.py b/specula/processing_objects/pyr_slopec.py
index 3476441..5581a7a 100644
--- a/specula/processing_objects/pyr_slopec.py
+++ b/specula/processing_objects/pyr_slopec.py
@@ -1,3 +1,4 @@
+import copy
 from specula import fuse
 from specula.processing_objects.slopec import Slopec
 from specula.base_processing_obj import InputDesc, OutputDesc
@@ -52,8 +53,9 @@ class PyrSlopec(Slopec):
         self.threshold = thr_value
         self.slopes_from_intensity = slopes_from_intensity
         if self.slopes_from_intensity:
-            self.pupdata.set_slopes_from_intensity(slopes_from_intensity)   # TODO we should not modify an external object,
-                                                                            # since it could be used elsewhere
+            # Do not modify the object passed by the user, it could be used elsewhere
+            self.pupdata = copy.copy(self.pupdata)
+            self.pupdata.set_slopes_from_intensity(slopes_from_intensity)
         pupil_idx = self.pupdata.pupil_idx
         all_idx = self.xp.concatenate([self.to_xp(pupil_idx(i), dtype=self.xp.int64) \
                                        for i in range(4)])
-- 
2.43.0


From 46841419f5dce7916c7ff6da49e2054a2d2bb832 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 23:41:42 +0000
Subject: [PATCH 102/122] fix: ExtSourcePyramid erased the weak points of its
 input

---
 specula/processing_objects/ext_source_pyramid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specula/processing_objects/ext_source_pyramid.py b/specula/processing_objects/ext_source_pyramid.py
index 2611287..2430969 100644
--- a/specula/processing_objects/ext_source_pyramid.py
+++ b/specula/processing_objects/ext_source_pyramid.py
@@ -320,7 +320,7 @@ class ExtSourcePyramid(ModulatedPyramid):
 
         # Set flux factor vector from source (will be updated in trigger if PSF changes)
         coeff_flux  = self.ext_source_coeff.value[:, 3]
-        self.flux_factor_vector = self.to_xp(coeff_flux)
+        self.flux_factor_vector = self.to_xp(coeff_flux).copy()
 
         # Clean up very small flux values (only if stream disabled)
         # When stream_enable=True, we need constant n_valid for CUDA graph
@@ -352,7 +352,8 @@ class ExtSourcePyramid(ModulatedPyramid):
                 self.ext_source_coeff.value[self._face_centers_idx, 3] = 0.0
 
             # Update flux factor vector after redistribution
-            self.flux_factor_vector = self.ext_source_coeff.value[:, 3]
+            self.flux_factor_vector[self._face_centers_idx] = \
+                self.ext_source_coeff.value[self._face_centers_idx, 3]
 
             self.valid_idx = self.xp.where(self.flux_factor_vector > 0.0)[0]
 
-- 
2.43.0


From 835b43343a6e1a02202bfc4df3ebcde22b458dc2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:34:57 +0000
Subject: [PATCH 103/122] fix: the images of CurvatureSensor did not have the
 requested pixel scale, the pupil was stretched instead of zero-padded

---
 .../processing_objects/curvature_sensor.py    | 50 ++++++++-----------
 1 file changed, 22 insertions(+), 28 deletions(-)

diff --git a/specula/processing_objects/curvature_sensor.py b/specula/processing_objects/curvature_sensor.py
index 2083a6a..f3350a7 100644
--- a/specula/processing_objects/curvature_sensor.py
+++ b/specula/processing_objects/curvature_sensor.py
@@ -5,7 +5,6 @@ from specula.data_objects.electric_field import ElectricField
 from specula.data_objects.intensity import Intensity
 from specula.base_processing_obj import BaseProcessingObj, InputDesc, OutputDesc
 from specula.lib.zernike_generator import ZernikeGenerator
-from specula.lib.extrapolation_2d import EFInterpolator
 from specula.lib.mask import CircularMask
 from specula.lib.make_mask import make_mask
 from specula.lib.toccd import toccd
@@ -76,8 +75,8 @@ class CurvatureSensor(BaseProcessingObj):
         self.fp_minus = None
         self.exp_plus = None
         self.exp_minus = None
-        self.ef_interpolator = None
-        self.ef_resampled = None
+        self.ef_padded = None
+        self.ef_pupil = None
         self.detector_mask = None
         self._temp_i1 = None
         self._temp_i2 = None
@@ -111,25 +110,25 @@ class CurvatureSensor(BaseProcessingObj):
         # especially for small FoVs.
         internal_size_float = exact_fft_size * self.fov_ovs_coeff
         self.internal_res = int(np.ceil(internal_size_float))
+        self.internal_res = max(self.internal_res, *in_ef.size) # The whole pupil must fit
         self.internal_res += (self.internal_res % 2) # Force even
 
         # Recalculate the "actual" internal pxscale based on the integer size,
         # which will be important when we do toccd to rescale to the final output_resolution
         self.actual_internal_pxscale = lambda_m / (self.internal_res * in_ef.pixel_pitch) * RAD2ASEC
 
-        # 2. Setup EFInterpolator
-        self.ef_interpolator = EFInterpolator(
-            in_ef=in_ef,
-            out_shape=(self.internal_res, self.internal_res),
-            magnification=1.0,
-            use_out_ef_cache=False, 
-            target_device_idx=self.target_device_idx,
-            precision=self.precision
-        )
-
-        # Allocate internal working arrays
-        self.ef_resampled = self.xp.zeros((self.internal_res, self.internal_res),
-                                          dtype=self.complex_dtype)
+        if self.wanted_fov > self.internal_res * self.actual_internal_pxscale * (1 + 1e-6):
+            raise ValueError(f'wanted_fov={self.wanted_fov} is larger than the field of view'
+                             f' of the pupil sampling, lambda/pixel_pitch='
+                             f'{self.internal_res * self.actual_internal_pxscale}')
+
+        # 2. Allocate internal working arrays. The field is zero-padded, keeping its
+        # pixel pitch, to get the internal pixel scale
+        pad0 = (self.internal_res - in_ef.size[0]) // 2
+        pad1 = (self.internal_res - in_ef.size[1]) // 2
+        self.ef_padded = self.xp.zeros((self.internal_res, self.internal_res),
+                                       dtype=self.complex_dtype)
+        self.ef_pupil = self.ef_padded[pad0:pad0 + in_ef.size[0], pad1:pad1 + in_ef.size[1]]
         self.fp_plus = self.xp.zeros((self.internal_res, self.internal_res),
                                      dtype=self.complex_dtype)
         self.fp_minus = self.xp.zeros((self.internal_res, self.internal_res),
@@ -140,13 +139,9 @@ class CurvatureSensor(BaseProcessingObj):
         self._temp_i2 = self.xp.zeros((self.internal_res, self.internal_res), dtype=self.dtype)
 
         # 3. Create Aberration Phase (Focus)
-        new_pixel_pitch = in_ef.pixel_pitch * (in_ef.size[0] / self.internal_res)
-        pupil_diameter_m = in_ef.size[0] * in_ef.pixel_pitch
-        pupil_diameter_pix = pupil_diameter_m / new_pixel_pitch
-
-        center = np.ones(2, dtype=self.dtype) * (self.internal_res / 2.0)
+        center = np.array([pad0 + in_ef.size[0] / 2.0, pad1 + in_ef.size[1] / 2.0], dtype=self.dtype)
         mask = CircularMask((self.internal_res, self.internal_res),
-                            maskCenter=center, maskRadius=pupil_diameter_pix / 2.0)
+                            maskCenter=center, maskRadius=in_ef.size[0] / 2.0)
 
         zgen = ZernikeGenerator(mask, self.xp, self.dtype)
         z4 = zgen.getZernike(4)
@@ -166,27 +161,26 @@ class CurvatureSensor(BaseProcessingObj):
 
     def prepare_trigger(self, t):
         super().prepare_trigger(t)
-        self.ef_interpolator.interpolate()
-        self.ef_interpolator.interpolated_ef().ef_at_lambda(
-            self.wavelength_in_nm, out=self.ef_resampled)
+        self.ef_pupil[:] = self.local_inputs['in_ef'].ef_at_lambda(self.wavelength_in_nm)
 
 
     def trigger_code(self):
         # Intrafocal propagation
-        ef_plus = self.ef_resampled * self.exp_plus
+        ef_plus = self.ef_padded * self.exp_plus
         self.fp_plus[:] = self.xp.fft.fftshift(self.xp.fft.fft2(ef_plus))
         abs2_cwfs(self.fp_plus, self._temp_i1, xp=self.xp)
         self._temp_i1 *= self.detector_mask
 
         # Extrafocal propagation
-        ef_minus = self.ef_resampled * self.exp_minus
+        ef_minus = self.ef_padded * self.exp_minus
         self.fp_minus[:] = self.xp.fft.fftshift(self.xp.fft.fft2(ef_minus))
         abs2_cwfs(self.fp_minus, self._temp_i2, xp=self.xp)
         self._temp_i2 *= self.detector_mask
 
         # Crop to Field of View
         # We need to extract the area defined by wanted_fov
-        wanted_fov_internal_pixels = int(np.ceil(self.wanted_fov / self.actual_internal_pxscale))
+        wanted_fov_internal_pixels = min(
+            int(np.ceil(self.wanted_fov / self.actual_internal_pxscale - 1e-6)), self.internal_res)
         cut_start = (self.internal_res - wanted_fov_internal_pixels) // 2
         cut_end = cut_start + wanted_fov_internal_pixels
 
-- 
2.43.0


From 132652680fa685e7bab3525a7e2cbeac989ad881 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:39:26 +0000
Subject: [PATCH 104/122] fix: the stop of FocalPlaneFilter was half a pixel
 away from the focal plane image

---
 specula/processing_objects/focal_plane_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specula/processing_objects/focal_plane_filter.py b/specula/processing_objects/focal_plane_filter.py
index f63ef8d..a41c39f 100644
--- a/specula/processing_objects/focal_plane_filter.py
+++ b/specula/processing_objects/focal_plane_filter.py
@@ -29,6 +29,7 @@ class FocalPlaneFilter(Coronagraph):
                  fov_errinf=fov_errinf,
                  fov_errsup=fov_errsup,
                  fft_res=fft_res,
+                 center_on_pixel=False,
                  target_device_idx=target_device_idx,
                  precision=precision)
 
-- 
2.43.0


From 92436ba48ffec37f9ecc9d376375464772a4c094 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:47:58 +0000
Subject: [PATCH 105/122] fix: PixelsDisplay kept the colour scale of its first
 frame

---
 specula/display/pixels_display.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specula/display/pixels_display.py b/specula/display/pixels_display.py
index c92ac2e..11463a7 100644
--- a/specula/display/pixels_display.py
+++ b/specula/display/pixels_display.py
@@ -154,6 +154,7 @@ class PixelsDisplay(BaseDisplay):
                 self._colorbar_added = True
         else:
             self.img.set_data(image)
+            self.img.set_clim(image.min(), image.max())
             if norm is not None:
                 self.img.set_norm(norm)
 
-- 
2.43.0


From 09ecb6f1a966bcc142258fbbe95ef9177df80c64 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:48:20 +0000
Subject: [PATCH 106/122] fix: PixelsPupDisplay drew the pupils in the wrong
 place of a cropped image

---
 specula/display/pixels_pup_display.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/specula/display/pixels_pup_display.py b/specula/display/pixels_pup_display.py
index 26bb48b..b8dfb09 100644
--- a/specula/display/pixels_pup_display.py
+++ b/specula/display/pixels_pup_display.py
@@ -44,6 +44,7 @@ class PixelsPupDisplay(BaseDisplay):
         self.inputs["in_params"] = InputValue(type=BaseValue, optional=True)
 
         # display objects
+        self._origin = (0, 0)
         self.circles = []
         self.center_points = []
         self.text_block = None
@@ -58,6 +59,7 @@ class PixelsPupDisplay(BaseDisplay):
 
         if self._crop_mode == "slice":
             x0, x1, y0, y1 = self._crop
+            self._origin = (range(w)[x0:x1].start, range(h)[y0:y1].start)
             return image[y0:y1, x0:x1]
 
         elif self._crop_mode == "center":
@@ -67,6 +69,7 @@ class PixelsPupDisplay(BaseDisplay):
             x1 = min(w, cx+hw)
             y0 = max(0, cy-hh)
             y1 = min(h, cy+hh)
+            self._origin = (x0, y0)
 
             return image[y0:y1, x0:x1]
 
@@ -82,10 +85,14 @@ class PixelsPupDisplay(BaseDisplay):
 
         n = pupdata.n_pupils
 
+        # position of the pupils in the (possibly cropped) image
+        ix = cx - self._origin[0]
+        iy = cy - self._origin[1]
+
         # create circles once
         if len(self.circles) == 0:
             for i in range(n):
-                circle = Circle((cx[i], cy[i]),
+                circle = Circle((ix[i], iy[i]),
                                 r[i],
                                 fill=False,
                                 color="red",
@@ -94,14 +101,14 @@ class PixelsPupDisplay(BaseDisplay):
                 self.ax.add_patch(circle)
                 self.circles.append(circle)
 
-                pt, = self.ax.plot(cx[i], cy[i], "rx")
+                pt, = self.ax.plot(ix[i], iy[i], "rx")
                 self.center_points.append(pt)
 
         else:
             for i in range(n):
-                self.circles[i].center = (cx[i], cy[i])
+                self.circles[i].center = (ix[i], iy[i])
                 self.circles[i].radius = r[i]
-                self.center_points[i].set_data([cx[i]], [cy[i]])
+                self.center_points[i].set_data([ix[i]], [iy[i]])
 
 
         # distances
-- 
2.43.0


From 2892072287abce540d586eb8fd0e4838854afafc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:48:21 +0000
Subject: [PATCH 107/122] fix: DoublePhaseDisplay showed an error instead of
 the phases

---
 specula/display/double_phase_display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/display/double_phase_display.py b/specula/display/double_phase_display.py
index 8e0d3df..4f8a662 100644
--- a/specula/display/double_phase_display.py
+++ b/specula/display/double_phase_display.py
@@ -137,6 +137,6 @@ class DoublePhaseDisplay(BaseDisplay):
                 self._create_figure()
 
             # DoublePhaseDisplay handles dual inputs
-            self._update_display()
+            self._update_display(self._get_data())
         except Exception as e:
             self._show_error(f"Double phase display error: {str(e)}")
-- 
2.43.0


From 361fc4341d20007435cb55c7403c155d16ec6a45 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:48:21 +0000
Subject: [PATCH 108/122] fix: DataPlotter could not plot the history of a
 one-element array

---
 specula/display/data_plotter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/display/data_plotter.py b/specula/display/data_plotter.py
index 6de3921..46c8d7a 100644
--- a/specula/display/data_plotter.py
+++ b/specula/display/data_plotter.py
@@ -95,7 +95,7 @@ class DataPlotter():
             self._count = n - 1
 
         self.set_w()
-        self._history[self._count] = value
+        self._history[self._count] = np.asarray(value).item()
         self._count += 1
 
         x = np.arange(self._count)
-- 
2.43.0


From a2d6bd1c16b3781e2497fb4a0cd88c0ad1f42844 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:48:21 +0000
Subject: [PATCH 109/122] fix: DataPlotter kept the limits and the length of
 the first vector it had plotted

---
 specula/display/data_plotter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specula/display/data_plotter.py b/specula/display/data_plotter.py
index 46c8d7a..b06757f 100644
--- a/specula/display/data_plotter.py
+++ b/specula/display/data_plotter.py
@@ -121,7 +121,9 @@ class DataPlotter():
             self.ax[0].set_ylim([vector.min(), vector.max()])
             self._first = False
         else:
-            self._line[0].set_ydata(vector)
+            self._line[0].set_data(np.arange(len(vector)), vector)
+            self.ax[0].set_xlim(0, len(vector) - 1)
+            self.ax[0].set_ylim(vector.min(), vector.max())
         return self.fig
 
     def imshow(self, frames):
-- 
2.43.0


From dc22e8fb34cb34be09b15dae82befde99870d8ef Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:48:21 +0000
Subject: [PATCH 110/122] fix: the messages of DataPlotter were drawn over each
 other and over the following plots

---
 specula/display/data_plotter.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/specula/display/data_plotter.py b/specula/display/data_plotter.py
index b06757f..0b5c280 100644
--- a/specula/display/data_plotter.py
+++ b/specula/display/data_plotter.py
@@ -147,14 +147,13 @@ class DataPlotter():
         return self.fig
 
     def plot_text(self, text):
+        # A message has a figure of its own, and so has the plot that will follow it
+        self._w_is_set = False
         self.set_w()
-
-        if self._first:
-            self.text = self.ax[0].text(0, 0, text, fontsize=14)
-        else:
-            del self.text
-            self.text = self.ax[0].text(0, 0, text, fontsize=14)
+        self.ax[0].text(0, 0, text, fontsize=14)
         self.fig.canvas.draw()
+        self._w_is_set = False
+        self._first = True
         return self.fig
 
 
-- 
2.43.0


From 3e46dfce3b7166d9d4c30e2d206babafacba3917 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:51:42 +0000
Subject: [PATCH 111/122] fix: the average phase removed by
 ElectricField.array_for_display was that of whole rows, and not of the valid
 points

---
 specula/data_objects/electric_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/data_objects/electric_field.py b/specula/data_objects/electric_field.py
index 553d72e..183a994 100644
--- a/specula/data_objects/electric_field.py
+++ b/specula/data_objects/electric_field.py
@@ -335,7 +335,7 @@ class ElectricField(BaseDataObj):
             2D array of phase values (in nm), mean-subtracted over nonzero amplitude pixels.
         """
         frame = self.field[1] * (self.field[0] > 0).astype(float)
-        idx = self.xp.where(self.field[0] > 0)[0]
+        idx = self.field[0] > 0
         # Remove average phase
         frame[idx] -= self.xp.mean(frame[idx])
         return frame
-- 
2.43.0


From 4dc84505c296f91214e5f8eb40354347a39758c0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 00:52:35 +0000
Subject: [PATCH 112/122] fix: the Moffat fit of SpotMonitor could get stuck on
 a bound of its parameters, far from the spot

---
 specula/processing_objects/spot_monitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/spot_monitor.py b/specula/processing_objects/spot_monitor.py
index cb7d65c..02e247f 100644
--- a/specula/processing_objects/spot_monitor.py
+++ b/specula/processing_objects/spot_monitor.py
@@ -188,7 +188,7 @@ class SpotMonitor(BaseProcessingObj):
                                         'alpha': (self._bounds_alpha[0], self._bounds_alpha[1])})
         model = const + moff
 
-        fitter = _fitting.LevMarLSQFitter()
+        fitter = _fitting.TRFLSQFitter()
 
         success = 0.0
         chi2 = _np.nan
-- 
2.43.0


From 049607450208b7821d0574156661258be1383a5c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:20:57 +0000
Subject: [PATCH 113/122] fix: the upward or downward layers of
 AtmoInfiniteEvolutionUpDown were at the wrong distance from the others

---
 .../atmo_infinite_evolution_up_down.py        | 84 ++++++++-----------
 1 file changed, 33 insertions(+), 51 deletions(-)

diff --git a/specula/processing_objects/atmo_infinite_evolution_up_down.py b/specula/processing_objects/atmo_infinite_evolution_up_down.py
index d2a4c1e..a69db29 100644
--- a/specula/processing_objects/atmo_infinite_evolution_up_down.py
+++ b/specula/processing_objects/atmo_infinite_evolution_up_down.py
@@ -134,58 +134,38 @@ class AtmoInfiniteEvolutionUpDown(AtmoInfiniteEvolution):
 
         delta_position = wind_speed * self.delta_time / self.pixel_pitch
 
-        # Determine which direction to process first based on extra_delta_time
-        # Process the one with smaller extra_delta_time first (earlier in time)
-        down_first = np.all(self.extra_delta_time_down <= self.extra_delta_time_up)
-
-        if down_first:
-            # Process down first, save state, then process up
-            self._process_propagation_direction(
-                wind_speed, wind_direction, delta_position,
-                self.extra_delta_time_down, self.last_position,
-                self.last_effective_position, self.acc_rows, self.acc_cols,
-                self.layer_list_down
-            )
-
-            # Save state
-            saved_states = self._save_phase_screen_states()
-
-            # Process up
-            self._process_propagation_direction(
-                wind_speed, wind_direction, delta_position,
-                self.extra_delta_time_up, self.last_position_up,
-                self.last_effective_position_up, self.acc_rows_up, self.acc_cols_up,
-                self.layer_list_up
-            )
-
-            # Restore down state (keep phase screens at down position)
-            self._restore_phase_screen_states(saved_states)
-        else:
-            # Process up first, save state, then process down
-            self._process_propagation_direction(
-                wind_speed, wind_direction, delta_position,
-                self.extra_delta_time_up, self.last_position_up,
-                self.last_effective_position_up, self.acc_rows_up, self.acc_cols_up,
-                self.layer_list_up
-            )
-
-            # Save state
-            saved_states = self._save_phase_screen_states()
+        # Each layer is processed first in the direction with the smaller extra_delta_time
+        # (earlier in time), and then moved on from there for the other one.
+        down_first = self.extra_delta_time_down <= self.extra_delta_time_up
+        lists = list(zip(self.layer_list_down, self.layer_list_up, down_first))
+        first_layers = [down if first else up for down, up, first in lists]
+        second_layers = [up if first else down for down, up, first in lists]
+
+        self.last_position_up[:] = self.last_position
+        self._process_propagation_direction(
+            wind_speed, wind_direction, delta_position,
+            np.minimum(self.extra_delta_time_down, self.extra_delta_time_up), self.last_position,
+            self.last_effective_position, self.acc_rows, self.acc_cols,
+            first_layers
+        )
 
-            # Process down
-            self._process_propagation_direction(
-                wind_speed, wind_direction, delta_position,
-                self.extra_delta_time_down, self.last_position,
-                self.last_effective_position, self.acc_rows, self.acc_cols,
-                self.layer_list_down
-            )
+        # Save state
+        saved_states = self._save_phase_screen_states()
+
+        # The second direction starts where the screens are now
+        self.last_effective_position_up[:] = self.last_effective_position
+        self.acc_rows_up[:] = self.acc_rows
+        self.acc_cols_up[:] = self.acc_cols
+        self._process_propagation_direction(
+            wind_speed, wind_direction, delta_position,
+            np.maximum(self.extra_delta_time_down, self.extra_delta_time_up), self.last_position_up,
+            self.last_effective_position_up, self.acc_rows_up, self.acc_cols_up,
+            second_layers
+        )
 
-            # Restore up state (keep phase screens at up position)
-            # Actually, we want to keep them at down, so restore anyway
-            # No, we should keep the "later" state for next frame
-            # Let's always keep down state
-            if not down_first:
-                pass  # Already at down state
+        # Keep the phase screens at the earlier position, and let them grow
+        # in the same way when they will move on
+        self._restore_phase_screen_states(saved_states)
 
         self.last_t = self.current_time
 
@@ -196,7 +176,8 @@ class AtmoInfiniteEvolutionUpDown(AtmoInfiniteEvolution):
             saved.append({
                 'full_scrn': ps.full_scrn,
                 'random_data_col': ps.random_data_col,
-                'random_data_row': ps.random_data_row
+                'random_data_row': ps.random_data_row,
+                'rng_state': ps.rng.bit_generator.state
             })
         return saved
 
@@ -206,3 +187,4 @@ class AtmoInfiniteEvolutionUpDown(AtmoInfiniteEvolution):
             ps.full_scrn = saved_states[i]['full_scrn']
             ps.random_data_col = saved_states[i]['random_data_col']
             ps.random_data_row = saved_states[i]['random_data_row']
+            ps.rng.bit_generator.state = saved_states[i]['rng_state']
-- 
2.43.0


From 041a4484b0f90fa25f4473af47453c7aac6b7ff8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:44:17 +0000
Subject: [PATCH 114/122] fix: CiaoCiaoSensor rotated the second channel with
 the amplitude already rotated when the pupil was moved too

---
 specula/processing_objects/ciao_ciao_sensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/ciao_ciao_sensor.py b/specula/processing_objects/ciao_ciao_sensor.py
index 876a7a3..5b4c725 100644
--- a/specula/processing_objects/ciao_ciao_sensor.py
+++ b/specula/processing_objects/ciao_ciao_sensor.py
@@ -190,7 +190,7 @@ class CiaoCiaoSensor(BaseProcessingObj):
             xShiftPhInPixel=self.xShiftDiffPhInPixel,
             yShiftPhInPixel=self.yShiftDiffPhInPixel,
             magnification=self.magnificationDiff,
-            use_out_ef_cache=True,
+            use_out_ef_cache=False, # the cached array is the input, if this was interpolated too
             target_device_idx=self.target_device_idx,
             precision=self.precision
         )
-- 
2.43.0


From 6c5ae221e1f611fa359e0ab00841fc55c8a81170 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 01:46:14 +0000
Subject: [PATCH 115/122] fix: GainOptimizer never updated the running mean of
 the PSD

---
 specula/processing_objects/gain_optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specula/processing_objects/gain_optimizer.py b/specula/processing_objects/gain_optimizer.py
index ae8331e..e2398d8 100644
--- a/specula/processing_objects/gain_optimizer.py
+++ b/specula/processing_objects/gain_optimizer.py
@@ -259,6 +259,7 @@ class GainOptimizer(BaseProcessingObj):
         if self.running_mean and self.psd_ol is not None:
             if self.psd_ol.shape[1] > mode:
                 psd_pseudo_ol = (psd_pseudo_ol + self.psd_ol[:, mode]) / 2.0
+                self.psd_ol[:, mode] = psd_pseudo_ol
 
         # t_intst different gain values
         gains = self.xp.linspace(gmax/self.ngains, gmax, self.ngains)
-- 
2.43.0


From ecfd88b853b42d421759713b38895f7aa1b1f875 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 02:21:35 +0000
Subject: [PATCH 116/122] fix: automatic interaction matrix tags tell apart
 configurations that differ by less than 0.1

---
 specula/processing_objects/im_calibrator.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/specula/processing_objects/im_calibrator.py b/specula/processing_objects/im_calibrator.py
index 1da4ec4..e2bb455 100644
--- a/specula/processing_objects/im_calibrator.py
+++ b/specula/processing_objects/im_calibrator.py
@@ -15,6 +15,12 @@ from specula.base_value import BaseValue
 from specula.connections import InputValue
 
 
+def _exact(value):
+    """One decimal digit, unless that would give two different values the same text."""
+    text = f'{value:.1f}'
+    return text if np.float32(text) == np.float32(value) else f'{value:.7g}'
+
+
 class ImCalibrator(BaseProcessingObj):
     """
     Interaction matrix calibrator processing object.
@@ -122,9 +128,9 @@ class ImCalibrator(BaseProcessingObj):
 
         # SOURCE coordinates
         if source.polar_coordinates[0] != 0:
-            im_tag += f'_coor{source.polar_coordinates[0]:.1f}a{source.polar_coordinates[1]:.1f}d'
+            im_tag += f'_coor{_exact(source.polar_coordinates[0])}a{_exact(source.polar_coordinates[1])}d'
         if source.height != float('inf'):
-            im_tag += f'_h{source.height:.1f}m'
+            im_tag += f'_h{_exact(source.height)}m'
 
         # DM related keys
         im_tag += '_dm'
@@ -145,15 +151,15 @@ class ImCalibrator(BaseProcessingObj):
             im_tag += f'_{pupilstop.tag}'
         else:
             if pupilstop.mask_diam is not None and pupilstop.mask_diam != 1.0:
-                im_tag += f'd{pupilstop.mask_diam:.1f}'
+                im_tag += f'd{_exact(pupilstop.mask_diam)}'
             if pupilstop.obs_diam is not None and pupilstop.obs_diam != 0.0:
-                im_tag += f'o{pupilstop.obs_diam:.1f}'
+                im_tag += f'o{_exact(pupilstop.obs_diam)}'
         if pupilstop.shiftXYinPixel.any() != 0.0:
-            im_tag += f'_s{pupilstop.shiftXYinPixel[0]:.1f}x{pupilstop.shiftXYinPixel[1]:.1f}pix'
+            im_tag += f'_s{_exact(pupilstop.shiftXYinPixel[0])}x{_exact(pupilstop.shiftXYinPixel[1])}pix'
         if pupilstop.rotInDeg is not None and pupilstop.rotInDeg != 0.0:
-            im_tag += f'_r{pupilstop.rotInDeg:.1f}deg'
+            im_tag += f'_r{_exact(pupilstop.rotInDeg)}deg'
         if pupilstop.magnification is not None and pupilstop.magnification != 1.0:
-            im_tag += f'_m{pupilstop.magnification:.1f}'
+            im_tag += f'_m{_exact(pupilstop.magnification)}'
 
         return im_tag
 
-- 
2.43.0


From 4f73289720544511f82bca99e151d4605ce1f814 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:08:42 +0000
Subject: [PATCH 117/122] fix: slope filtering reads the reconstructor in the
 orientation of Recmat objects

---
 specula/processing_objects/slopec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specula/processing_objects/slopec.py b/specula/processing_objects/slopec.py
index 3292b30..f9c6a28 100644
--- a/specula/processing_objects/slopec.py
+++ b/specula/processing_objects/slopec.py
@@ -51,7 +51,7 @@ class Slopec(BaseProcessingObj):
             if filt_recmat:
                 raise ValueError('filt_recmat must not be set if "filtmat" is set')
             self.filt_intmat = Intmat(filtmat[0], target_device_idx=self.target_device_idx)
-            self.filt_recmat = Recmat(filtmat[1], target_device_idx=self.target_device_idx)
+            self.filt_recmat = Recmat(filtmat[1].T, target_device_idx=self.target_device_idx)
         else:
             if bool(filt_intmat) != bool(filt_recmat):
                 raise ValueError(
@@ -141,8 +141,8 @@ class Slopec(BaseProcessingObj):
             self.slopes.slopes[:] = m
 
         if self.filt_intmat and self.filt_recmat:
-            m = self.slopes.slopes @ self.filt_recmat.recmat
-            sl0 = m @ self.filt_intmat.intmat.T
+            m = self.filt_recmat.recmat @ self.slopes.slopes
+            sl0 = self.filt_intmat.intmat @ m
             self.slopes.slopes -= sl0
 
         self.outputs['out_slopes'].generation_time = self.current_time
-- 
2.43.0


From 6ba8ca54d395aab9797cf98b4d8cf08750ccb1ef Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:08:42 +0000
Subject: [PATCH 118/122] fix: Modalrec could not be built from an interaction
 matrix

---
 specula/processing_objects/modalrec.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/specula/processing_objects/modalrec.py b/specula/processing_objects/modalrec.py
index 9cffc0c..2b5dbe1 100644
--- a/specula/processing_objects/modalrec.py
+++ b/specula/processing_objects/modalrec.py
@@ -45,13 +45,14 @@ class Modalrec(BaseProcessingObj):
                     recmat = Recmat(self.xp.identity(nmodes),
                                     target_device_idx=target_device_idx, precision=precision)
                 elif intmat:
+                    # the object passed by the user is not modified
+                    intmat = Intmat(intmat.intmat, target_device_idx=target_device_idx,
+                                    precision=precision)
                     if nmodes:
-                        nmodesintmat = intmat.size[0]
-                        intmat.reduce_size(nmodesintmat - nmodes)
+                        intmat.reduce_size(intmat.nmodes - nmodes)
                     if nSlopesToBeDiscarded:
                         intmat.reduce_slopes(nSlopesToBeDiscarded)
-                    recmat = Recmat(intmat.intmat,
-                                    target_device_idx=target_device_idx, precision=precision)
+                    recmat = intmat.generate_rec()
 
             if ncutmodes:
                 if recmat is not None:
-- 
2.43.0


From 29e8a3b8e676ebf663d5268d9573a5e415d47669 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:19:29 +0000
Subject: [PATCH 119/122] fix: filters built from control library transfer
 functions lost their delay

---
 specula/data_objects/iir_filter_data.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/specula/data_objects/iir_filter_data.py b/specula/data_objects/iir_filter_data.py
index 12f1b66..fc431f5 100644
--- a/specula/data_objects/iir_filter_data.py
+++ b/specula/data_objects/iir_filter_data.py
@@ -1087,7 +1087,13 @@ class IirFilterData(BaseDataObj):
             ord_den[i] = len(den_coeffs)
 
             # Pad with zeros at the beginning (highest order terms first)
-            num[i, max_len - len(num_coeffs):] = num_coeffs[::-1]
+            # A numerator shorter than the denominator is a delay, and must keep it
+            if len(num_coeffs) < len(den_coeffs):
+                ord_num[i] = max_len
+                start = max_len - len(den_coeffs)
+            else:
+                start = max_len - len(num_coeffs)
+            num[i, start:start + len(num_coeffs)] = num_coeffs[::-1]
             den[i, max_len - len(den_coeffs):] = den_coeffs[::-1]
 
         return IirFilterData(ord_num, ord_den, num, den, target_device_idx=target_device_idx)
-- 
2.43.0


From 2d3da259b991d1ceaf25e83f3573b4144e82914b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:39:57 +0000
Subject: [PATCH 120/122] fix: concatenated vectors were in double precision
 whatever the precision of the simulation

---
 specula/processing_objects/base_operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specula/processing_objects/base_operation.py b/specula/processing_objects/base_operation.py
index 884f881..fe5d50c 100644
--- a/specula/processing_objects/base_operation.py
+++ b/specula/processing_objects/base_operation.py
@@ -131,7 +131,7 @@ class BaseOperation(BaseProcessingObj):
         elif not self.constant_min is None:
             self.out_value.value = self.constant_min
         elif self.concat:
-            self.out_value.value = self.xp.empty(len(value1.value) + len(value2.value))
+            self.out_value.value = self.xp.empty(len(value1.value) + len(value2.value), dtype=self.dtype)
         else:
             self.out_value.value = self.xp.empty_like(value1.value)
 
-- 
2.43.0


From 490e98af15f1ecc422d60067f992da1f4a910c74 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:44:03 +0000
Subject: [PATCH 121/122] fix: sub_ef failed on regions that are not square

---
 specula/data_objects/electric_field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specula/data_objects/electric_field.py b/specula/data_objects/electric_field.py
index 183a994..663f210 100644
--- a/specula/data_objects/electric_field.py
+++ b/specula/data_objects/electric_field.py
@@ -258,7 +258,8 @@ class ElectricField(BaseDataObj):
             idx = self.xp.unravel_index(idx, self.field[0].shape)
             xfrom, xto = self.xp.min(idx[0]), self.xp.max(idx[0])
             yfrom, yto = self.xp.min(idx[1]), self.xp.max(idx[1])
-        sub_ef = ElectricField(xto - xfrom, yto - yfrom, self.pixel_pitch, target_device_idx=self.target_device_idx)
+        sub_ef = ElectricField(yto - yfrom, xto - xfrom, self.pixel_pitch,
+                               target_device_idx=self.target_device_idx, precision=self.precision)
         sub_ef.field[0, :] = self.field[0, xfrom:xto, yfrom:yto]
         sub_ef.field[1, :] = self.field[1, xfrom:xto, yfrom:yto]
         sub_ef.S0 = self.S0
-- 
2.43.0


From 72a859cb0f6f601e68ec76416018c3edda42c757 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 03:50:07 +0000
Subject: [PATCH 122/122] fix: mechanical coupling took neighbours for
 actuators farther away because of rounding

---
 specula/lib/compute_zonal_ifunc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/specula/lib/compute_zonal_ifunc.py b/specula/lib/compute_zonal_ifunc.py
index d277fd5..0d4052c 100644
--- a/specula/lib/compute_zonal_ifunc.py
+++ b/specula/lib/compute_zonal_ifunc.py
@@ -189,9 +189,11 @@ def compute_zonal_ifunc(dim, n_act, xp=np, dtype=np.float32, circ_geom:bool=Fals
             # Distance from actuator j to all others
             distance = xp.sqrt((x - x[j])**2 + (y - y[j])**2)
 
-            # Find neighbors, excluding self (distance > 0)
-            close1_indices = xp.where((distance > 0) & (distance <= step))[0]
-            close2_indices = xp.where((distance > step) & (distance <= 2 * step))[0]
+            # Find neighbors, excluding self (distance > 0).
+            # Many lie at exactly one or two steps: leave room for rounding
+            step1 = step * (1 + 1e-6)
+            close1_indices = xp.where((distance > 0) & (distance <= step1))[0]
+            close2_indices = xp.where((distance > step1) & (distance <= 2 * step1))[0]
 
             # Start with original influence function
             ifs_cube[j, :, :] = ifs_cube_orig[j, :, :]
-- 
2.43.0

