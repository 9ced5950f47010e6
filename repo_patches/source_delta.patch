From 50e588ad88a1815ed0a98424113234cc24a4fe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:48 +0000
Subject: [PATCH 01/16] fix: return an error instead of panicking when samples
 cannot be read

A truncated wav file or a failing read made WavFile::open panic, although its
documentation promises that errors are reported.
---
 visqol-rs/src/wav_reader.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/visqol-rs/src/wav_reader.rs b/visqol-rs/src/wav_reader.rs
index cf5d450..be4722f 100644
--- a/visqol-rs/src/wav_reader.rs
+++ b/visqol-rs/src/wav_reader.rs
@@ -25,10 +25,9 @@ impl WavFile {
             }));
         }
 
-        let samples: Vec<i32> = reader
+        let samples = reader
             .samples::<i32>()
-            .map(|x| x.expect("Failed to read samples"))
-            .collect();
+            .collect::<Result<Vec<i32>, hound::Error>>()?;
         let samples_quantized = samples.iter().map(|&e| e as i16).collect();
 
         Ok(Self {
-- 
2.43.0


From 2ddc0093e10bd3856203bfecb4f9e50261cef5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:48 +0000
Subject: [PATCH 02/16] fix: reject references too short for one speech patch
 instead of panicking

Speech mode underflowed or sliced past the end of the spectrogram when the
reference held less than one patch.
---
 visqol-rs/src/vad_patch_creator.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/visqol-rs/src/vad_patch_creator.rs b/visqol-rs/src/vad_patch_creator.rs
index 8429152..b9edf46 100644
--- a/visqol-rs/src/vad_patch_creator.rs
+++ b/visqol-rs/src/vad_patch_creator.rs
@@ -28,6 +28,12 @@ impl PatchCreator for VadPatchCreator {
         let patch_sample_length = self.patch_size * frame_size;
         let spectrum_length = spectrogram.ncols();
         let first_patch_idx = self.patch_size / 2 - 1;
+        if spectrum_length < first_patch_idx + self.patch_size {
+            return Err(VisqolError::ReferenceSpectrogramTooSmall {
+                spectrogram_length: spectrum_length,
+                minimum_required: first_patch_idx + self.patch_size,
+            });
+        }
         let patch_count = (spectrum_length - first_patch_idx) / self.patch_size;
         let total_sample_count = patch_count * patch_sample_length;
 
-- 
2.43.0


From cb16174ce3f75ea621c8986465e721c160185b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:48 +0000
Subject: [PATCH 03/16] fix: do not underflow when the first reference patch is
 examined

The index of the first patch is smaller than half a patch, so every reference
with a single patch (and every degraded file short enough to drop all but the
first patch) panicked.
---
 visqol-rs/src/comparison_patches_selector.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/visqol-rs/src/comparison_patches_selector.rs b/visqol-rs/src/comparison_patches_selector.rs
index cd69233..84dd8e3 100644
--- a/visqol-rs/src/comparison_patches_selector.rs
+++ b/visqol-rs/src/comparison_patches_selector.rs
@@ -247,12 +247,11 @@ impl ComparisonPatchesSelector {
     ) -> usize {
         let mut num_patches = ref_patch_indices.len();
 
-        if num_patches != 0 {
-            while (ref_patch_indices[num_patches - 1] - (num_frames_per_patch / 2))
+        while num_patches > 0
+            && ref_patch_indices[num_patches - 1].saturating_sub(num_frames_per_patch / 2)
                 > num_frames_in_deg_spectro
-            {
-                num_patches -= 1;
-            }
+        {
+            num_patches -= 1;
         }
         num_patches
     }
-- 
2.43.0


From 7fa041b0faa315dc7087392d16f4650cd36e9609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:48 +0000
Subject: [PATCH 04/16] fix: stop the patch search past the end of a short
 degraded spectrogram

With a small search window and a degraded file much shorter than the reference
the search starts beyond the last frame; the equality test never fired and the
access panicked.
---
 visqol-rs/src/comparison_patches_selector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visqol-rs/src/comparison_patches_selector.rs b/visqol-rs/src/comparison_patches_selector.rs
index 84dd8e3..a30de5c 100644
--- a/visqol-rs/src/comparison_patches_selector.rs
+++ b/visqol-rs/src/comparison_patches_selector.rs
@@ -176,7 +176,7 @@ impl ComparisonPatchesSelector {
                 continue;
             }
 
-            if slide_offset == spectrogram_data.ncols() as i32 {
+            if slide_offset >= spectrogram_data.ncols() as i32 {
                 // The start of the degraded is past the end of the spectrogram, so
                 // nothing left to compare.
 
-- 
2.43.0


From 65d421ec2b34287f9d89bc8f3fc8144d0d049ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:48 +0000
Subject: [PATCH 05/16] fix: keep a silent degraded signal silent instead of
 turning it into NaNs

The scale factor of a silent signal is infinite; the resulting NaNs made the
correlation panic later on.
---
 visqol-rs/src/audio_utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/visqol-rs/src/audio_utils.rs b/visqol-rs/src/audio_utils.rs
index e19cf56..9e9358a 100644
--- a/visqol-rs/src/audio_utils.rs
+++ b/visqol-rs/src/audio_utils.rs
@@ -18,6 +18,11 @@ pub fn scale_to_match_sound_pressure_level(
     reference: &AudioSignal,
     degraded: &AudioSignal,
 ) -> AudioSignal {
+    // Silence has no level that could be matched, scaling it would only produce NaNs.
+    if degraded.data_matrix.iter().all(|&sample| sample == 0.0) {
+        return AudioSignal::new(&degraded.data_matrix.to_vec(), degraded.sample_rate);
+    }
+
     let ref_spl = calculate_sound_pressure_level(reference);
     let deg_spl = calculate_sound_pressure_level(degraded);
 
-- 
2.43.0


From 7fc5c96bea1f0ab143e814d15561cc3ccdebe9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:48 +0000
Subject: [PATCH 06/16] fix: reject sample rates below the range of the
 filterbank

A header announcing a few Hz led to a hop size of 0 and a division by zero.
---
 visqol-rs/src/gammatone_spectrogram_builder.rs | 6 ++++++
 visqol-rs/src/visqol_error.rs                  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/visqol-rs/src/gammatone_spectrogram_builder.rs b/visqol-rs/src/gammatone_spectrogram_builder.rs
index 3094688..64be88c 100644
--- a/visqol-rs/src/gammatone_spectrogram_builder.rs
+++ b/visqol-rs/src/gammatone_spectrogram_builder.rs
@@ -20,6 +20,12 @@ impl<const NUM_BANDS: usize> SpectrogramBuilder for GammatoneSpectrogramBuilder<
     ) -> Result<Spectrogram, VisqolError> {
         let time_domain_signal = &signal.data_matrix;
         let sample_rate = signal.sample_rate;
+        if sample_rate as f64 / 2.0 <= self.filter_bank.min_freq {
+            return Err(VisqolError::SampleRateTooLow {
+                sample_rate,
+                minimum_required: (2.0 * self.filter_bank.min_freq) as u32,
+            });
+        }
         let max_freq = if NUM_BANDS == NUM_BANDS_SPEECH {
             Self::SPEECH_MODE_MAX_FREQ
         } else {
diff --git a/visqol-rs/src/visqol_error.rs b/visqol-rs/src/visqol_error.rs
index 1ee226b..b4faf59 100644
--- a/visqol-rs/src/visqol_error.rs
+++ b/visqol-rs/src/visqol_error.rs
@@ -31,6 +31,12 @@ pub enum VisqolError {
     #[error("Failed to compute VAD!")]
     FailedToComputeVad,
 
+    #[error("Sample rate of {sample_rate:?} Hz is too low! More than {minimum_required:?} Hz are required")]
+    SampleRateTooLow {
+        sample_rate: u32,
+        minimum_required: u32,
+    },
+
     #[error("Visqol input files must be quantized to 16 bit. Found {bits_per_sample:?}!")]
     InvalidBitsPerSample { bits_per_sample: u16 },
 }
-- 
2.43.0


From 6855f084bb39acd09f4f3cdbbb4522cfd4d9a209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:48 +0000
Subject: [PATCH 07/16] fix: derive patch times from the actual hop size

For sample rates such as 11025 Hz the hop size is truncated to whole samples,
but patch times were computed from the fractional one. The times drifted and in
long files the patch lay behind the end of the signal, which panicked.
---
 visqol-rs/src/visqol.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/visqol-rs/src/visqol.rs b/visqol-rs/src/visqol.rs
index a6181ce..4115688 100644
--- a/visqol-rs/src/visqol.rs
+++ b/visqol-rs/src/visqol.rs
@@ -35,7 +35,8 @@ pub fn calculate_similarity<const NUM_BANDS: usize>(
         patch_creator.create_ref_patch_indices(&ref_spectrogram.data, ref_signal, window)?;
 
     let frame_duration = calculate_frame_duration(
-        window.size as f64 * window.overlap,
+        // The spectrogram advances by whole samples.
+        (window.size as f64 * window.overlap).floor(),
         ref_signal.sample_rate as usize,
     );
 
-- 
2.43.0


From 899c6c4cc829c61c3bddd600281f7afbc35b06b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:52 +0000
Subject: [PATCH 08/16] fix: make --reference_file and --degraded_file require
 each other

Both named an argument that does not exist: giving only one of them was
silently accepted (exit status 0, nothing compared), and builds with debug
assertions panicked before doing anything.
---
 visqol/src/command_line_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/visqol/src/command_line_utils.rs b/visqol/src/command_line_utils.rs
index bafa25c..e892166 100644
--- a/visqol/src/command_line_utils.rs
+++ b/visqol/src/command_line_utils.rs
@@ -57,7 +57,7 @@ pub struct CommandLineArgs {
     /// The wav file path used as the reference audio.
     #[clap(
         long = "reference_file",
-        requires = "degraded-file",
+        requires = "degraded_file",
         conflicts_with = "batch_input_csv"
     )]
     pub reference_file: Option<String>,
@@ -65,7 +65,7 @@ pub struct CommandLineArgs {
     /// The wav file path used as the degraded audio.
     #[clap(
         long = "degraded_file",
-        requires = "reference-file",
+        requires = "reference_file",
         conflicts_with = "batch_input_csv"
     )]
     pub degraded_file: Option<String>,
-- 
2.43.0


From dd696751585c509af90077227c7af2c95b2915fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:12 +0000
Subject: [PATCH 09/16] fix: append to the debug file, one record per pair

The file was replaced on every invocation and held only the last record of
a batch, although its contents are documented to be appended to.
---
 visqol/src/output_utils.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/visqol/src/output_utils.rs b/visqol/src/output_utils.rs
index bc13095..1bab79e 100644
--- a/visqol/src/output_utils.rs
+++ b/visqol/src/output_utils.rs
@@ -7,6 +7,7 @@ use prettytable::{
     Cell, Row, Table,
 };
 use serde_json;
+use std::{fs::OpenOptions, io::Write};
 
 /// Writes debug info to either console or to file.
 pub fn write_results(
@@ -44,13 +45,18 @@ fn write_to_console(args: &CommandLineArgs, result: &SimilarityResult, file_pair
         write_patch_similarity(result);
     }
 }
-/// Writes json formatted debug information.
+/// Appends json formatted debug information, one record per result.
 fn write_debug_json(json_output_path: &String, results: &Vec<SimilarityResult>) {
     let mut json_output = String::new();
     for result in results {
-        json_output = serde_json::to_string_pretty(result).expect("Could not format JSON!");
+        json_output += &serde_json::to_string_pretty(result).expect("Could not format JSON!");
+        json_output.push('\n');
     }
-    std::fs::write(json_output_path, json_output)
+    OpenOptions::new()
+        .create(true)
+        .append(true)
+        .open(json_output_path)
+        .and_then(|mut file| file.write_all(json_output.as_bytes()))
         .unwrap_or_else(|_| panic!("Could not write JSON to {}!", json_output_path.as_str()));
 }
 
-- 
2.43.0


From 71b6224f0680bd07556ed9f5ac50764df41a368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:13 +0000
Subject: [PATCH 10/16] fix: write the documented table to the results file

The results file held the full per-patch details of each result without
naming the recordings, and a batch whose results have different numbers of
patches panicked half way through. Write the header and the
reference,degraded,moslqo rows that --results_csv documents.
---
 visqol/src/output_utils.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/visqol/src/output_utils.rs b/visqol/src/output_utils.rs
index 1bab79e..4f5b886 100644
--- a/visqol/src/output_utils.rs
+++ b/visqol/src/output_utils.rs
@@ -23,7 +23,7 @@ pub fn write_results(
     }
 
     if let Some(csv_output_path) = &args.results_csv {
-        write_results_to_csv(csv_output_path, results);
+        write_results_to_csv(csv_output_path, results, file_pairs);
     }
 
     for (sim_result, file_pair) in results.iter().zip(file_pairs) {
@@ -61,15 +61,22 @@ fn write_debug_json(json_output_path: &String, results: &Vec<SimilarityResult>)
 }
 
 /// Writes computes MOS values to csv file.
-fn write_results_to_csv(csv_output_path: &String, results: &Vec<SimilarityResult>) {
+fn write_results_to_csv(
+    csv_output_path: &String,
+    results: &Vec<SimilarityResult>,
+    file_pairs: &Vec<PathPair>,
+) {
     let mut writer = WriterBuilder::new()
         .has_headers(false)
         .delimiter(b',')
         .from_path(csv_output_path)
         .expect("Failed to instantiate CSV writer!");
-    for result in results {
+    writer
+        .write_record(["reference", "degraded", "moslqo"])
+        .expect("Failed to write csv header!");
+    for (result, file_pair) in results.iter().zip(file_pairs) {
         writer
-            .serialize(result)
+            .serialize((&file_pair.reference, &file_pair.degraded, result.moslqo))
             .expect("Failed to serialize SimilarityResult!");
     }
     writer.flush().expect("Failed to flush csv file!")
-- 
2.43.0


From 6b7a9328a1012738248e97cbbdc16aa787f02142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:54 +0000
Subject: [PATCH 11/16] fix: reject support vector models that have lost
 headers or vectors

---
 .../src/support_vector_regression_model.rs    | 27 ++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/visqol-rs/src/support_vector_regression_model.rs b/visqol-rs/src/support_vector_regression_model.rs
index 49b03ee..b540e7f 100644
--- a/visqol-rs/src/support_vector_regression_model.rs
+++ b/visqol-rs/src/support_vector_regression_model.rs
@@ -1,4 +1,4 @@
-use ffsvm::{self, DenseFeatures, DenseSVM, Label, Predict};
+use ffsvm::{self, DenseFeatures, DenseSVM, Label, ModelFile, Predict};
 use std::convert::TryFrom;
 use std::fs::read_to_string;
 
@@ -12,11 +12,32 @@ impl SupportVectorRegressionModel {
     pub fn new(model_path: &str) -> Self {
         let model_description = read_to_string(model_path)
             .unwrap_or_else(|_| panic!("failed to read model path from {}!", model_path));
+        let model_file =
+            ModelFile::try_from(model_description.as_str()).expect("Failed to load SVM model");
+        assert!(
+            Self::is_complete(&model_file),
+            "SVM model {} is incomplete!",
+            model_path
+        );
         Self {
-            model: DenseSVM::try_from(model_description.as_str())
-                .expect("Failed to load SVM model"),
+            model: DenseSVM::try_from(&model_file).expect("Failed to load SVM model"),
         }
     }
+
+    /// `ffsvm` fills in a missing offset, coefficient or feature with zero, which would silently yield different scores.
+    fn is_complete(model_file: &ModelFile) -> bool {
+        let header = model_file.header();
+        let vectors = model_file.vectors();
+        let num_features = vectors.first().map_or(0, |v| v.features.len());
+
+        !header.rho.is_empty()
+            && vectors.len() == header.total_sv as usize
+            && num_features > 0
+            && vectors
+                .iter()
+                .all(|v| !v.coefs.is_empty() && v.features.len() == num_features)
+    }
+
     /// Given a slice of features, this function produces a single score.
     pub fn predict(&self, observation: &[f64]) -> f64 {
         let mut problem = DenseFeatures::from(&self.model);
-- 
2.43.0


From 962ecca424113924ae6eff9e36c58cd57152278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:21 +0000
Subject: [PATCH 12/16] fix: reject the odd sample rate whose bands collapse to
 one frequency

---
 visqol-rs/src/gammatone_spectrogram_builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/visqol-rs/src/gammatone_spectrogram_builder.rs b/visqol-rs/src/gammatone_spectrogram_builder.rs
index 64be88c..b899ba8 100644
--- a/visqol-rs/src/gammatone_spectrogram_builder.rs
+++ b/visqol-rs/src/gammatone_spectrogram_builder.rs
@@ -20,10 +20,10 @@ impl<const NUM_BANDS: usize> SpectrogramBuilder for GammatoneSpectrogramBuilder<
     ) -> Result<Spectrogram, VisqolError> {
         let time_domain_signal = &signal.data_matrix;
         let sample_rate = signal.sample_rate;
-        if sample_rate as f64 / 2.0 <= self.filter_bank.min_freq {
+        if (sample_rate / 2) as f64 <= self.filter_bank.min_freq {
             return Err(VisqolError::SampleRateTooLow {
                 sample_rate,
-                minimum_required: (2.0 * self.filter_bank.min_freq) as u32,
+                minimum_required: (2.0 * self.filter_bank.min_freq) as u32 + 1,
             });
         }
         let max_freq = if NUM_BANDS == NUM_BANDS_SPEECH {
-- 
2.43.0


From 6b54d6fa6829dfcb152c727cff37c904404c7f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:10 +0000
Subject: [PATCH 13/16] fix: load empty multi-channel recordings instead of
 panicking

---
 visqol-rs/src/audio_utils.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/visqol-rs/src/audio_utils.rs b/visqol-rs/src/audio_utils.rs
index 9e9358a..3f1838c 100644
--- a/visqol-rs/src/audio_utils.rs
+++ b/visqol-rs/src/audio_utils.rs
@@ -4,7 +4,7 @@ use crate::audio_signal::AudioSignal;
 use crate::math_utils;
 use crate::spectrogram::Spectrogram;
 use crate::wav_reader::WavFile;
-use ndarray::{Array1, Array2, Axis, ShapeBuilder};
+use ndarray::{Array1, Array2, Axis};
 use num::complex::Complex64;
 use num_traits::Zero;
 
@@ -69,10 +69,7 @@ pub fn load_as_mono(file_path: &str) -> Result<AudioSignal, Box<dyn Error>> {
 fn extract_multichannel(num_channels: usize, interleaved_vector: &[f64]) -> Array2<f64> {
     assert!(interleaved_vector.len().is_multiple_of(num_channels));
     let sub_vector_size = interleaved_vector.len() / num_channels;
-    Array2::from_shape_vec(
-        (sub_vector_size, num_channels).strides((num_channels, 1)),
-        interleaved_vector.to_vec(),
-    )
+    Array2::from_shape_vec((sub_vector_size, num_channels), interleaved_vector.to_vec())
     .expect("Failed to sum multichannel signal to mono signal!")
 }
 
-- 
2.43.0


From 8fae630002084bc44ab1f537ad65becb6b4ede7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:00 +0000
Subject: [PATCH 14/16] fix: do not ignore failures to print the verbose tables

---
 visqol/src/output_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/visqol/src/output_utils.rs b/visqol/src/output_utils.rs
index 4f5b886..7cd03f8 100644
--- a/visqol/src/output_utils.rs
+++ b/visqol/src/output_utils.rs
@@ -96,7 +96,7 @@ fn write_fvnsim_table(result: &SimilarityResult) {
         ]));
     }
     table.set_titles(Row::new(vec![Cell::new("FVNSIM"), Cell::new("Freq Band")]));
-    table.printstd();
+    table.print_tty(false).expect("Failed to print table!");
 }
 
 /// Formats patch similarity info for a file pair to a table and outputs it to the console
@@ -132,7 +132,7 @@ fn write_patch_similarity(result: &SimilarityResult) {
         Cell::new("Deg Patch: Start - End"),
     ]);
     table.set_titles(titles);
-    table.printstd();
+    table.print_tty(false).expect("Failed to print table!");
 }
 
 /// Returns the default table format for the path similarity table
-- 
2.43.0


From 4366fbae3c74e8e2eaf1011757b715342628a66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:22 +0000
Subject: [PATCH 15/16] fix: do not write the results table twice after a
 failed write

---
 visqol/src/output_utils.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/visqol/src/output_utils.rs b/visqol/src/output_utils.rs
index 7cd03f8..69308eb 100644
--- a/visqol/src/output_utils.rs
+++ b/visqol/src/output_utils.rs
@@ -69,8 +69,7 @@ fn write_results_to_csv(
     let mut writer = WriterBuilder::new()
         .has_headers(false)
         .delimiter(b',')
-        .from_path(csv_output_path)
-        .expect("Failed to instantiate CSV writer!");
+        .from_writer(Vec::new());
     writer
         .write_record(["reference", "degraded", "moslqo"])
         .expect("Failed to write csv header!");
@@ -79,7 +78,10 @@ fn write_results_to_csv(
             .serialize((&file_pair.reference, &file_pair.degraded, result.moslqo))
             .expect("Failed to serialize SimilarityResult!");
     }
-    writer.flush().expect("Failed to flush csv file!")
+    let table = writer.into_inner().expect("Failed to flush csv table!");
+    // The CSV writer would write its buffer again when it is dropped after a failed write.
+    std::fs::write(csv_output_path, table)
+        .unwrap_or_else(|_| panic!("Could not write results to {}!", csv_output_path.as_str()));
 }
 
 /// Formats FVNSIM info to table and writes it to console.
-- 
2.43.0


From 83aaae726651cbe2ac6b43450b90530069cd3f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:32 +0000
Subject: [PATCH 16/16] fix: do not overflow on search windows larger than the
 spectrogram

---
 visqol-rs/src/comparison_patches_selector.rs | 8 +++++++-
 visqol-rs/src/visqol.rs                      | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/visqol-rs/src/comparison_patches_selector.rs b/visqol-rs/src/comparison_patches_selector.rs
index a30de5c..6139787 100644
--- a/visqol-rs/src/comparison_patches_selector.rs
+++ b/visqol-rs/src/comparison_patches_selector.rs
@@ -31,7 +31,13 @@ impl ComparisonPatchesSelector {
         let num_frames_per_patch = ref_patches[0].ncols();
         let num_frames_in_deg_spectro = spectrogram_data.ncols();
         let patch_duration = frame_duration * num_frames_per_patch as f64;
-        let search_window = search_window_radius * num_frames_per_patch as i32;
+        // Nothing is examined beyond the spectrograms, however large the window is.
+        let num_frames_to_search = ref_patch_indices
+            .iter()
+            .fold(num_frames_in_deg_spectro, |frames, &index| frames.max(index));
+        let search_window = search_window_radius
+            .saturating_mul(num_frames_per_patch as i32)
+            .min(num_frames_to_search as i32);
         let num_patches = Self::calc_max_num_patches(
             ref_patch_indices,
             num_frames_in_deg_spectro,
diff --git a/visqol-rs/src/visqol.rs b/visqol-rs/src/visqol.rs
index 4115688..cd3e4f1 100644
--- a/visqol-rs/src/visqol.rs
+++ b/visqol-rs/src/visqol.rs
@@ -48,7 +48,7 @@ pub fn calculate_similarity<const NUM_BANDS: usize>(
         &mut ref_patch_indices,
         &deg_spectrogram.data,
         frame_duration,
-        search_window as i32,
+        search_window.min(i32::MAX as usize) as i32,
     )?;
     // Realign the patches in time domain subsignals that start at the coarse
     // patch times.
-- 
2.43.0

