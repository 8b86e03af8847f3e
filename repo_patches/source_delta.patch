From 1a8f27c1152b14075151d032150839458b21b93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:16 +0000
Subject: [PATCH 01/16] verif: guarded harness hook (cfg visqol_verif)

---
 visqol-rs/src/lib.rs                                 | 7 +++++++
 visqol-rs/src/neurogram_similiarity_index_measure.rs | 4 ++++
 visqol-rs/src/xcorr.rs                               | 4 ++++
 3 files changed, 15 insertions(+)

diff --git a/visqol-rs/src/lib.rs b/visqol-rs/src/lib.rs
index 5e9a8ab..fd0bea5 100644
--- a/visqol-rs/src/lib.rs
+++ b/visqol-rs/src/lib.rs
@@ -25,6 +25,7 @@
 //!     path_to_degraded_file, similarity_result.moslqo
 //! );
 //! ```
+#![allow(unexpected_cfgs)]
 
 mod alignment;
 mod analysis_window;
@@ -63,3 +64,9 @@ mod xcorr;
 
 #[cfg(test)]
 mod test_utility;
+
+// Verification harness: compiled only with `--cfg visqol_verif`.
+#[cfg(visqol_verif)]
+mod verif {
+    include!(env!("VISQOL_VERIF_HARNESS"));
+}
diff --git a/visqol-rs/src/neurogram_similiarity_index_measure.rs b/visqol-rs/src/neurogram_similiarity_index_measure.rs
index fccf063..c5ea36a 100644
--- a/visqol-rs/src/neurogram_similiarity_index_measure.rs
+++ b/visqol-rs/src/neurogram_similiarity_index_measure.rs
@@ -31,6 +31,10 @@ impl PatchSimilarityComparator for NeurogramSimiliarityIndexMeasure {
         ref_patch: &mut ndarray::Array2<f64>,
         deg_patch: &mut ndarray::Array2<f64>,
     ) -> PatchSimilarityResult {
+        #[cfg(visqol_verif)]
+        if let Some(result) = crate::verif::nsim_stub(ref_patch, deg_patch) {
+            return result;
+        }
         let window = arr2(&[
             [0.0113033910173052, 0.0838251475442633, 0.0113033910173052],
             [0.0838251475442633, 0.619485845753726, 0.0838251475442633],
diff --git a/visqol-rs/src/xcorr.rs b/visqol-rs/src/xcorr.rs
index ab48dff..54f3cd3 100644
--- a/visqol-rs/src/xcorr.rs
+++ b/visqol-rs/src/xcorr.rs
@@ -4,6 +4,10 @@ use num::complex::Complex64;
 
 /// Calculate the maximum delay between to signals.
 pub fn calculate_best_lag(signal_1: &[f64], signal_2: &[f64]) -> Option<i64> {
+    #[cfg(visqol_verif)]
+    if let Some(result) = crate::verif::best_lag_stub(signal_1, signal_2) {
+        return result;
+    }
     let max_lag = ((signal_1.len().max(signal_2.len())) - 1) as i64;
 
     let point_wise_fft_vec =
-- 
2.43.0


From ea8d9347e63132cbb7f87a2951977766ec4c9815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:44 +0000
Subject: [PATCH 02/16] fix: convolve with the kernel, not its transpose

perform_valid_2d_conv_with_boundary walked the window column by column while
the flattened kernel is stored row by row, so asymmetric kernels were applied
transposed.
---
 visqol-rs/src/convolution_2d.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/visqol-rs/src/convolution_2d.rs b/visqol-rs/src/convolution_2d.rs
index 8f33091..1f069af 100644
--- a/visqol-rs/src/convolution_2d.rs
+++ b/visqol-rs/src/convolution_2d.rs
@@ -25,8 +25,8 @@ pub fn perform_valid_2d_conv_with_boundary(
             let mut sum = 0.0f64;
             let mut filter_index = filter_size - 1;
 
-            for f_col in 0..f_c_c {
-                for f_row in 0..f_r_c {
+            for f_row in 0..f_r_c {
+                for f_col in 0..f_c_c {
                     let idx = ((f_row + o_row) * i_c_c) + f_col + o_col;
                     sum += padded_flattened_matrix[idx] * flattened_filter[filter_index];
                     filter_index = filter_index.saturating_sub(1);
-- 
2.43.0


From c8bfe4c3afdb08e61b35c57adbc76f9e16448cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:52 +0000
Subject: [PATCH 03/16] fix: do not panic when counting patches that fit a
 short degraded signal

The subtraction underflowed for a patch starting within the first half
patch, and the loop indexed past the front when no patch was left.
---
 visqol-rs/src/comparison_patches_selector.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/visqol-rs/src/comparison_patches_selector.rs b/visqol-rs/src/comparison_patches_selector.rs
index cd69233..8c4b0ab 100644
--- a/visqol-rs/src/comparison_patches_selector.rs
+++ b/visqol-rs/src/comparison_patches_selector.rs
@@ -247,12 +247,11 @@ impl ComparisonPatchesSelector {
     ) -> usize {
         let mut num_patches = ref_patch_indices.len();
 
-        if num_patches != 0 {
-            while (ref_patch_indices[num_patches - 1] - (num_frames_per_patch / 2))
+        while num_patches != 0
+            && ref_patch_indices[num_patches - 1].saturating_sub(num_frames_per_patch / 2)
                 > num_frames_in_deg_spectro
-            {
-                num_patches -= 1;
-            }
+        {
+            num_patches -= 1;
         }
         num_patches
     }
-- 
2.43.0


From 921110ab4d59b63fa9391f03a3f92d5c67c1f3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:52 +0000
Subject: [PATCH 04/16] fix: stop patch search when it starts past the degraded
 spectrogram's end

A patch whose search window begins beyond the end skipped the equality
test and indexed out of bounds.
---
 visqol-rs/src/comparison_patches_selector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visqol-rs/src/comparison_patches_selector.rs b/visqol-rs/src/comparison_patches_selector.rs
index 8c4b0ab..3562264 100644
--- a/visqol-rs/src/comparison_patches_selector.rs
+++ b/visqol-rs/src/comparison_patches_selector.rs
@@ -176,7 +176,7 @@ impl ComparisonPatchesSelector {
                 continue;
             }
 
-            if slide_offset == spectrogram_data.ncols() as i32 {
+            if slide_offset >= spectrogram_data.ncols() as i32 {
                 // The start of the degraded is past the end of the spectrogram, so
                 // nothing left to compare.
 
-- 
2.43.0


From 9ff59d4392deec515cca72a98e98bf69ceccc3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:52 +0000
Subject: [PATCH 05/16] fix: report an error instead of panicking when there
 are no reference patches

---
 visqol-rs/src/comparison_patches_selector.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/visqol-rs/src/comparison_patches_selector.rs b/visqol-rs/src/comparison_patches_selector.rs
index 3562264..af4fd9a 100644
--- a/visqol-rs/src/comparison_patches_selector.rs
+++ b/visqol-rs/src/comparison_patches_selector.rs
@@ -28,6 +28,9 @@ impl ComparisonPatchesSelector {
         frame_duration: f64,
         search_window_radius: i32,
     ) -> Result<Vec<PatchSimilarityResult>, VisqolError> {
+        if ref_patches.is_empty() {
+            return Err(VisqolError::SignalsTooDifferent);
+        }
         let num_frames_per_patch = ref_patches[0].ncols();
         let num_frames_in_deg_spectro = spectrogram_data.ncols();
         let patch_duration = frame_duration * num_frames_per_patch as f64;
-- 
2.43.0


From 745999c3ee3e564baa1580bef2bdbe602bfb2e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:46 +0000
Subject: [PATCH 06/16] fix: keep a silent degraded signal silent when matching
 levels

Its level is minus infinity, so the scale factor was infinite or NaN and
every sample became NaN.
---
 visqol-rs/src/audio_utils.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/visqol-rs/src/audio_utils.rs b/visqol-rs/src/audio_utils.rs
index e19cf56..3b72718 100644
--- a/visqol-rs/src/audio_utils.rs
+++ b/visqol-rs/src/audio_utils.rs
@@ -21,7 +21,12 @@ pub fn scale_to_match_sound_pressure_level(
     let ref_spl = calculate_sound_pressure_level(reference);
     let deg_spl = calculate_sound_pressure_level(degraded);
 
-    let scale_factor = 10.0f64.powf((ref_spl - deg_spl) / 20.0);
+    // A silent degraded signal has no level to match.
+    let scale_factor = if deg_spl == f64::NEG_INFINITY {
+        1.0
+    } else {
+        10.0f64.powf((ref_spl - deg_spl) / 20.0)
+    };
     let scaled_mat = degraded.data_matrix.clone() * scale_factor;
     AudioSignal::new(
         scaled_mat
-- 
2.43.0


From 96862b071cb378d22801741461c4362ae48dca97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:19 +0000
Subject: [PATCH 07/16] fix: round the lag in samples when truncating aligned
 signals

lag / rate * rate can be slightly below the integer lag, and truncation
then cut one sample too few from both segments.
---
 visqol-rs/src/alignment.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/visqol-rs/src/alignment.rs b/visqol-rs/src/alignment.rs
index 2150d35..999da77 100644
--- a/visqol-rs/src/alignment.rs
+++ b/visqol-rs/src/alignment.rs
@@ -21,12 +21,12 @@ pub fn align_and_truncate(
             // that amount should be truncated.
             new_ref_matrix = new_ref_matrix
                 .slice(s![
-                    (lag * ref_signal.sample_rate as f64) as usize..ref_signal.len()
+                    (lag * ref_signal.sample_rate as f64).round() as usize..ref_signal.len()
                 ])
                 .to_owned();
             new_deg_matrix = new_deg_matrix
                 .slice(s![
-                    (lag * deg_signal.sample_rate as f64) as usize..ref_signal.len()
+                    (lag * deg_signal.sample_rate as f64).round() as usize..ref_signal.len()
                 ])
                 .to_owned();
         }
-- 
2.43.0


From fbf9b4a8e7586b59be1c3db4667d53bc687082f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:00 +0000
Subject: [PATCH 08/16] fix: round slice boundaries to the nearest sample

---
 visqol-rs/src/comparison_patches_selector.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/visqol-rs/src/comparison_patches_selector.rs b/visqol-rs/src/comparison_patches_selector.rs
index af4fd9a..bf45ca3 100644
--- a/visqol-rs/src/comparison_patches_selector.rs
+++ b/visqol-rs/src/comparison_patches_selector.rs
@@ -261,16 +261,18 @@ impl ComparisonPatchesSelector {
 
     /// Given an `AudioSignal` and the desired start and end times in seconds, this function returns a copy of the segment in the audio signal ranging from `start_time` to `end_time`
     pub fn slice(in_signal: &AudioSignal, start_time: f64, end_time: f64) -> AudioSignal {
-        let start_index = ((start_time * in_signal.sample_rate as f64) as usize).max(0);
-        let end_index =
-            ((end_time * in_signal.sample_rate as f64) as usize).min(in_signal.data_matrix.len());
+        // Boundaries are rounded to the nearest sample: a time which falls on a sample
+        // may be represented by a floating-point number slightly below it.
+        let start_sample = (start_time * in_signal.sample_rate as f64).round();
+        let end_sample = (end_time * in_signal.sample_rate as f64).round();
+        let start_index = start_sample.max(0.0) as usize;
+        let end_index = (end_sample as usize).min(in_signal.data_matrix.len());
 
         let mut sliced_matrix = in_signal
             .data_matrix
             .slice(s![start_index..end_index])
             .to_owned();
-        let end_time_diff =
-            (end_time * in_signal.sample_rate as f64 - in_signal.data_matrix.len() as f64) as usize;
+        let end_time_diff = (end_sample - in_signal.data_matrix.len() as f64) as usize;
 
         if end_time_diff > 0 {
             let post_silence_matrix = Array1::<f64>::zeros(end_time_diff);
@@ -279,9 +281,8 @@ impl ComparisonPatchesSelector {
                     .expect("Failed to zero-pad patch!");
         }
 
-        if start_time < 0.0 {
-            let pre_silence_matrix =
-                Array1::<f64>::zeros((-start_time * in_signal.sample_rate as f64) as usize);
+        if start_sample < 0.0 {
+            let pre_silence_matrix = Array1::<f64>::zeros(-start_sample as usize);
             sliced_matrix =
                 concatenate(Axis(0), &[pre_silence_matrix.view(), sliced_matrix.view()])
                     .expect("Failed to zero-pad patch!");
-- 
2.43.0


From 29e5909600d3f2d606b93b5cfc26a0e0307685a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 09/16] fix: name the real minimum length when a reference
 spectrogram is too small

---
 visqol-rs/src/image_patch_creator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visqol-rs/src/image_patch_creator.rs b/visqol-rs/src/image_patch_creator.rs
index f08906f..175197f 100644
--- a/visqol-rs/src/image_patch_creator.rs
+++ b/visqol-rs/src/image_patch_creator.rs
@@ -54,7 +54,7 @@ impl ImagePatchCreator {
         if spectrum_length < self.patch_size + init_patch_index {
             return Err(VisqolError::ReferenceSpectrogramTooSmall {
                 spectrogram_length: spectrum_length,
-                minimum_required: self.patch_size - init_patch_index,
+                minimum_required: self.patch_size + init_patch_index,
             });
         }
 
-- 
2.43.0


From e4aa1fbf65afa1420b0f58b6be915c1dce0b10d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 10/16] fix: refuse references too short for a voiced patch

---
 visqol-rs/src/vad_patch_creator.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/visqol-rs/src/vad_patch_creator.rs b/visqol-rs/src/vad_patch_creator.rs
index 8429152..26591ad 100644
--- a/visqol-rs/src/vad_patch_creator.rs
+++ b/visqol-rs/src/vad_patch_creator.rs
@@ -28,6 +28,13 @@ impl PatchCreator for VadPatchCreator {
         let patch_sample_length = self.patch_size * frame_size;
         let spectrum_length = spectrogram.ncols();
         let first_patch_idx = self.patch_size / 2 - 1;
+        // The spectrogram needs to hold at least one patch.
+        if spectrum_length < first_patch_idx + self.patch_size {
+            return Err(VisqolError::ReferenceSpectrogramTooSmall {
+                spectrogram_length: spectrum_length,
+                minimum_required: first_patch_idx + self.patch_size,
+            });
+        }
         let patch_count = (spectrum_length - first_patch_idx) / self.patch_size;
         let total_sample_count = patch_count * patch_sample_length;
 
-- 
2.43.0


From 87b76181cfe9ba2d8fbf3881d8ced77b6626c437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 11/16] fix: round every FFT size up to a power of two

---
 visqol-rs/src/math_utils.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/visqol-rs/src/math_utils.rs b/visqol-rs/src/math_utils.rs
index f33c74a..7371bce 100644
--- a/visqol-rs/src/math_utils.rs
+++ b/visqol-rs/src/math_utils.rs
@@ -6,16 +6,7 @@ pub fn normalize_signal(signal: &Array1<f64>) -> Array1<f64> {
     normalized_mat / max
 }
 
-pub fn next_pow_two(input: usize) -> usize {
-    let mut next_power_of_two = input - 1;
-
-    next_power_of_two |= next_power_of_two >> 1;
-    next_power_of_two |= next_power_of_two >> 2;
-    next_power_of_two |= next_power_of_two >> 4;
-    next_power_of_two |= next_power_of_two >> 1;
-    next_power_of_two |= next_power_of_two >> 16;
-    next_power_of_two + 1
-}
+pub fn next_pow_two(input: usize) -> usize { input.next_power_of_two() }
 
 /// Returns the exponential fit between 2 points
 pub fn exponential_from_fit(x: f64, a: f64, b: f64, x_0: f64) -> f64 { a + (b * (x - x_0)).exp() }
-- 
2.43.0


From f3ad161c9729f243c3951e5051fe57214f4cc4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:15 +0000
Subject: [PATCH 12/16] fix: keep the negative lags when correlating very short
 signals

---
 visqol-rs/src/fft_manager.rs | 2 +-
 visqol-rs/src/xcorr.rs       | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/visqol-rs/src/fft_manager.rs b/visqol-rs/src/fft_manager.rs
index 4e83765..c12148a 100644
--- a/visqol-rs/src/fft_manager.rs
+++ b/visqol-rs/src/fft_manager.rs
@@ -5,7 +5,7 @@ use num::Zero;
 use rustfft::FftPlanner;
 
 // Constants
-const MIN_FFT_SIZE: usize = 32;
+pub const MIN_FFT_SIZE: usize = 32;
 
 /// Wrapper around the `rustfft` library to perform basic fft operations.
 pub struct FftManager {
diff --git a/visqol-rs/src/xcorr.rs b/visqol-rs/src/xcorr.rs
index 54f3cd3..fca648e 100644
--- a/visqol-rs/src/xcorr.rs
+++ b/visqol-rs/src/xcorr.rs
@@ -1,5 +1,5 @@
 use crate::fast_fourier_transform;
-use crate::fft_manager::FftManager;
+use crate::fft_manager::{FftManager, MIN_FFT_SIZE};
 use num::complex::Complex64;
 
 /// Calculate the maximum delay between to signals.
@@ -48,7 +48,8 @@ pub fn calculate_inverse_fft_pointwise_product(
         _ => {}
     }
     let (_, exp) = frexp((signal_1.len() * 2 - 1) as f64);
-    let fft_points = 2usize.pow(exp as u32);
+    // All of the transform's points are kept: the last ones hold the negative lags.
+    let fft_points = 2usize.pow(exp as u32).max(MIN_FFT_SIZE);
     let mut manager = FftManager::new(fft_points);
     let point_wise_product =
         calculate_fft_pointwise_product(signal_1, signal_2, &mut manager, fft_points);
-- 
2.43.0


From 8808be3ec547f8b9b3552a1e824aed0fed530f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:58 +0000
Subject: [PATCH 13/16] fix: give each mode its own patch size

---
 visqol-rs/src/visqol_manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/visqol-rs/src/visqol_manager.rs b/visqol-rs/src/visqol_manager.rs
index 0beb2fb..022d01c 100644
--- a/visqol-rs/src/visqol_manager.rs
+++ b/visqol-rs/src/visqol_manager.rs
@@ -40,13 +40,13 @@ impl<const NUM_BANDS: usize> VisqolManager<NUM_BANDS> {
             Variant::Wideband {
                 use_unscaled_mos_mapping,
             } => {
-                patch_creator = Box::new(VadPatchCreator::new(PATCH_SIZE_AUDIO));
+                patch_creator = Box::new(VadPatchCreator::new(PATCH_SIZE_SPEECH));
                 sim_to_quality_mapper = Box::new(SpeechSimilarityToQualityMapper::new(
                     !use_unscaled_mos_mapping,
                 ));
             }
             Variant::Fullband { model_path } => {
-                patch_creator = Box::new(ImagePatchCreator::new(PATCH_SIZE_SPEECH));
+                patch_creator = Box::new(ImagePatchCreator::new(PATCH_SIZE_AUDIO));
                 sim_to_quality_mapper = Box::new(SvrSimilarityToQualityMapper::new(&model_path));
             }
         }
-- 
2.43.0


From 02ae33dc9a46b23d67d65c5f6054eb0463c96532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:47 +0000
Subject: [PATCH 14/16] fix: report unreadable WAV samples as an error instead
 of panicking

---
 visqol-rs/src/wav_reader.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/visqol-rs/src/wav_reader.rs b/visqol-rs/src/wav_reader.rs
index cf5d450..59611c6 100644
--- a/visqol-rs/src/wav_reader.rs
+++ b/visqol-rs/src/wav_reader.rs
@@ -27,8 +27,7 @@ impl WavFile {
 
         let samples: Vec<i32> = reader
             .samples::<i32>()
-            .map(|x| x.expect("Failed to read samples"))
-            .collect();
+            .collect::<Result<_, hound::Error>>()?;
         let samples_quantized = samples.iter().map(|&e| e as i16).collect();
 
         Ok(Self {
-- 
2.43.0


From 7edc685b388c7f0ce273a17347d4f92b68a3b3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:40 +0000
Subject: [PATCH 15/16] fix: load multi-channel WAV files without samples

---
 visqol-rs/src/audio_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/visqol-rs/src/audio_utils.rs b/visqol-rs/src/audio_utils.rs
index 3b72718..f582b72 100644
--- a/visqol-rs/src/audio_utils.rs
+++ b/visqol-rs/src/audio_utils.rs
@@ -4,7 +4,7 @@ use crate::audio_signal::AudioSignal;
 use crate::math_utils;
 use crate::spectrogram::Spectrogram;
 use crate::wav_reader::WavFile;
-use ndarray::{Array1, Array2, Axis, ShapeBuilder};
+use ndarray::{Array1, Array2, Axis};
 use num::complex::Complex64;
 use num_traits::Zero;
 
@@ -70,7 +70,7 @@ fn extract_multichannel(num_channels: usize, interleaved_vector: &[f64]) -> Arra
     assert!(interleaved_vector.len().is_multiple_of(num_channels));
     let sub_vector_size = interleaved_vector.len() / num_channels;
     Array2::from_shape_vec(
-        (sub_vector_size, num_channels).strides((num_channels, 1)),
+        (sub_vector_size, num_channels),
         interleaved_vector.to_vec(),
     )
     .expect("Failed to sum multichannel signal to mono signal!")
-- 
2.43.0


From 2822a9742c03da67a2924e150ac6612ae2cfe041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:40 +0000
Subject: [PATCH 16/16] fix: report a sample rate too low to analyse as an
 error instead of panicking

---
 visqol-rs/src/gammatone_spectrogram_builder.rs | 3 +++
 visqol-rs/src/visqol_error.rs                  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/visqol-rs/src/gammatone_spectrogram_builder.rs b/visqol-rs/src/gammatone_spectrogram_builder.rs
index 3094688..1533589 100644
--- a/visqol-rs/src/gammatone_spectrogram_builder.rs
+++ b/visqol-rs/src/gammatone_spectrogram_builder.rs
@@ -38,6 +38,9 @@ impl<const NUM_BANDS: usize> SpectrogramBuilder for GammatoneSpectrogramBuilder<
         self.filter_bank.reset_filter_conditions();
 
         let hop_size = (window.size as f64 * window.overlap) as usize;
+        if hop_size == 0 {
+            return Err(VisqolError::SampleRateTooLow { sample_rate });
+        }
 
         if time_domain_signal.len() < window.size {
             return Err(VisqolError::TooFewSamples {
diff --git a/visqol-rs/src/visqol_error.rs b/visqol-rs/src/visqol_error.rs
index 1ee226b..37b0e91 100644
--- a/visqol-rs/src/visqol_error.rs
+++ b/visqol-rs/src/visqol_error.rs
@@ -14,6 +14,9 @@ pub enum VisqolError {
         minimum_required: usize,
     },
 
+    #[error("Sample rate is too low! {sample_rate:?} Hz leaves no samples between two frames")]
+    SampleRateTooLow { sample_rate: u32 },
+
     #[error(
         "reference spectrum size {spectrogram_length:?} smaller than minimum {minimum_required:?}"
     )]
-- 
2.43.0

