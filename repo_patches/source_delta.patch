From bc95959b7b61eedd220214802f97fee474f815c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 01/55] sim: guarded hook (--cfg up4_sim) for the buffer window
 size and the Python/plotting layers

---
 src/datamanager.rs       | 22 ++++++++++++++++++++++
 src/datamanager/pdata.rs | 20 ++++++++++----------
 src/datamanager/tdata.rs | 20 ++++++++++----------
 src/lib.rs               | 15 +++++++++++----
 4 files changed, 53 insertions(+), 24 deletions(-)

diff --git a/src/datamanager.rs b/src/datamanager.rs
index d4f93a5..6652d93 100644
--- a/src/datamanager.rs
+++ b/src/datamanager.rs
@@ -14,6 +14,28 @@ pub use pdata::PData;
 pub mod tdata;
 pub use tdata::TData;
 mod utilities;
+
+/// Number of timesteps a buffer window holds, given the built-in `default`.
+///
+/// Simulation builds (`--cfg up4_sim`, off by default) may shrink the window so
+/// that a handful of timesteps is enough to move it.
+#[inline]
+fn window_size(default: usize) -> usize {
+    #[cfg(up4_sim)]
+    {
+        let window = SIM_WINDOW_SIZE.load(std::sync::atomic::Ordering::SeqCst);
+        if window > 0 {
+            return window;
+        }
+    }
+    default
+}
+
+/// Window size of simulation builds, zero keeps the built-in size.
+#[cfg(up4_sim)]
+pub static SIM_WINDOW_SIZE: std::sync::atomic::AtomicUsize =
+    std::sync::atomic::AtomicUsize::new(0);
+
 /// Defines main access functions for post processing functions.
 pub trait DataManager {
     /// return the pointer to `Timestep` at the step `timestep`
diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 452fafa..bbc23de 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -2,7 +2,7 @@
 //!
 //! Implementation of reading + buffering functions.
 
-use super::{DataManager, GlobalStats, Manager, Timestep};
+use super::{window_size, DataManager, GlobalStats, Manager, Timestep};
 
 extern crate ndarray;
 use crate::particleselector::Selector;
@@ -44,11 +44,11 @@ impl PData {
             "PData: Generating new instance with file: {}\
             and buffersize: {}",
             &filename,
-            BUFFERSIZE
+            window_size(BUFFERSIZE)
         );
         let file = hdf5::File::open(filename)
             .unwrap_or_else(|_| panic!("Can not read HDF5 file {}. ", &filename));
-        let buffer = vec![Timestep::default(); BUFFERSIZE];
+        let buffer = vec![Timestep::default(); window_size(BUFFERSIZE)];
         let mut data = PData {
             file,
             buffer,
@@ -56,7 +56,7 @@ impl PData {
             extra_buffers: vec![],
             range: (0, 0),
             range_extra: vec![],
-            buffersize: BUFFERSIZE,
+            buffersize: window_size(BUFFERSIZE),
             buffersize_extra: vec![],
             single_data: Timestep::default(),
             global_stats_: GlobalStats::default(),
@@ -915,8 +915,8 @@ impl DataManager for PData {
         if timestep > self.range.1 - 1 {
             self.update((timestep, timestep + self.buffersize));
         } else if timestep < self.range.0 {
-            let chunck = ((timestep as f64) / (BUFFERSIZE as f64)).floor() as usize;
-            self.update((chunck * BUFFERSIZE, (chunck + 1) * BUFFERSIZE));
+            let chunck = ((timestep as f64) / (window_size(BUFFERSIZE) as f64)).floor() as usize;
+            self.update((chunck * window_size(BUFFERSIZE), (chunck + 1) * window_size(BUFFERSIZE)));
         }
 
         &self.buffer[timestep - self.range.0]
@@ -1080,7 +1080,7 @@ impl DataManager for PData {
 
     /// setup a new buffer
     fn setup_buffer(&mut self, external_buffer_id: usize) {
-        let range = (0usize, BUFFERSIZE);
+        let range = (0usize, window_size(BUFFERSIZE));
         let buffer_id;
         if self.external_buffer_names.contains(&external_buffer_id) {
             // buffer is already know and will be reset
@@ -1093,10 +1093,10 @@ impl DataManager for PData {
         } else {
             // new buffer. Allocate new memory and load the first bit of data
             self.extra_buffers
-                .push(vec![Timestep::default(); BUFFERSIZE]);
+                .push(vec![Timestep::default(); window_size(BUFFERSIZE)]);
             buffer_id = self.extra_buffers.len() - 1;
             self.range_extra.push(range);
-            self.buffersize_extra.push(BUFFERSIZE);
+            self.buffersize_extra.push(window_size(BUFFERSIZE));
             self.external_buffer_names.push(external_buffer_id)
         }
         self.update_extra(range, buffer_id)
@@ -1117,7 +1117,7 @@ impl DataManager for PData {
         } else if self.range_extra[buffer_id].1 == self.global_stats_.ntimesteps
             && timestep < self.range_extra[buffer_id].0
         {
-            self.update_extra((0, BUFFERSIZE), buffer_id);
+            self.update_extra((0, window_size(BUFFERSIZE)), buffer_id);
         }
         // If a timestep below the current range is requested, update buffer
         if timestep < self.range_extra[buffer_id].0 {
diff --git a/src/datamanager/tdata.rs b/src/datamanager/tdata.rs
index 30c63ed..5ebbed1 100644
--- a/src/datamanager/tdata.rs
+++ b/src/datamanager/tdata.rs
@@ -2,7 +2,7 @@
 //!
 //! Implementation of reading + buffering functions.
 
-use super::{DataManager, GlobalStats, Manager, Timestep};
+use super::{window_size, DataManager, GlobalStats, Manager, Timestep};
 use itertools::Chunk;
 use pyo3::prelude::*;
 extern crate ndarray;
@@ -42,18 +42,18 @@ impl TData {
             "TData: Generating new instance with file: {}\
             and buffersize: {}",
             &filename,
-            BUFFERSIZE
+            window_size(BUFFERSIZE)
         );
         let file = hdf5::File::open(filename)
             .unwrap_or_else(|_| panic!("Can not read HDF5 file {}. ", &filename));
-        let buffer = vec![Timestep::default(); BUFFERSIZE];
+        let buffer = vec![Timestep::default(); window_size(BUFFERSIZE)];
         let mut data = TData {
             file,
             buffer,
             buffer_extra: vec![],
             range: (0, 0),
             range_extra: vec![],
-            buffersize: BUFFERSIZE,
+            buffersize: window_size(BUFFERSIZE),
             buffersize_extra: vec![],
             single_data: Timestep::default(),
             global_stats_: GlobalStats::default(),
@@ -893,8 +893,8 @@ impl DataManager for TData {
         if timestep > self.range.1 - 1 {
             self.update((timestep, timestep + self.buffersize));
         } else if timestep < self.range.0 {
-            let chunk = (timestep as f64 / BUFFERSIZE as f64).floor() as usize;
-            self.update((chunk * BUFFERSIZE, (chunk + 1) * BUFFERSIZE));
+            let chunk = (timestep as f64 / window_size(BUFFERSIZE) as f64).floor() as usize;
+            self.update((chunk * window_size(BUFFERSIZE), (chunk + 1) * window_size(BUFFERSIZE)));
         }
 
         &self.buffer[timestep - self.range.0]
@@ -1059,7 +1059,7 @@ impl DataManager for TData {
     }
     /// setup a new buffer
     fn setup_buffer(&mut self, external_buffer_id: usize) {
-        let range = (0usize, BUFFERSIZE);
+        let range = (0usize, window_size(BUFFERSIZE));
         let buffer_id;
         if self.external_buffer_names.contains(&external_buffer_id) {
             // buffer is already know and will be reset
@@ -1072,10 +1072,10 @@ impl DataManager for TData {
         } else {
             // new buffer. Allocate new memory and load the first bit of data
             self.buffer_extra
-                .push(vec![Timestep::default(); BUFFERSIZE]);
+                .push(vec![Timestep::default(); window_size(BUFFERSIZE)]);
             buffer_id = self.buffer_extra.len() - 1;
             self.range_extra.push(range);
-            self.buffersize_extra.push(BUFFERSIZE);
+            self.buffersize_extra.push(window_size(BUFFERSIZE));
             self.external_buffer_names.push(external_buffer_id)
         }
         self.update_extra(range, buffer_id)
@@ -1099,7 +1099,7 @@ impl DataManager for TData {
         } else if self.range_extra[buffer_id].1 == self.global_stats_.ntimesteps
             && timestep < self.range_extra[buffer_id].0
         {
-            self.update_extra((0, BUFFERSIZE), buffer_id);
+            self.update_extra((0, window_size(BUFFERSIZE)), buffer_id);
         }
         // If a timestep below the current range is requested, update buffer
         if timestep < self.range.0 {
diff --git a/src/lib.rs b/src/lib.rs
index 41dc7c7..274e370 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,6 +17,8 @@
 //!
 //! This crate also has a [Python API](../../../../index.html).
 #![allow(dead_code)]
+// `up4_sim` is a plain `--cfg`, no declared cargo feature.
+#![allow(unexpected_cfgs)]
 extern crate ndarray;
 extern crate plotly;
 pub mod grid;
@@ -36,12 +38,17 @@ mod functions;
 // thus, the "too many" arguments are actually the litany of
 // optionals permitted in Python, and 'py lifetimes need to be
 // sprinkled around in this module or Bad Things Will Happen (tm)
+// `up4_sim` (off by default) leaves the Python and plotting layers out of the
+// simulation build, which has no interpreter and no plotting backend.
+#[cfg(not(up4_sim))]
 #[allow(clippy::too_many_arguments, clippy::needless_lifetimes)]
 pub mod pylib;
-pub mod types;
-pub mod utilities;
-
+#[cfg(not(up4_sim))]
 pub mod plotting;
+#[cfg(not(up4_sim))]
 pub use plotting::*;
-
+#[cfg(not(up4_sim))]
 pub use pylib::*;
+
+pub mod types;
+pub mod utilities;
-- 
2.43.0


From 01b77e8f6476bb1af5235bb24d6705f1852515aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 02/55] fix: a buffer refill that fails no longer leaves
 foreign timesteps in the window

---
 src/datamanager/pdata.rs | 8 ++++++--
 src/datamanager/tdata.rs | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index bbc23de..96ed71f 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -362,6 +362,8 @@ impl PData {
         let mut particleid: Array2<f64> = Array2::<f64>::zeros((self.buffersize, particles));
         let mut time: Array2<f64> = Array2::<f64>::zeros((self.buffersize, particles));
         let clouds: Array2<f64> = Array2::<f64>::ones((self.buffersize, particles));
+        // the window holds nothing until every one of its timesteps is read
+        self.range = (range.0, range.0);
         print_debug!("PData: Looping over all particles:");
         for particle_id in 0..particles {
             // for each particle find the Position at the
@@ -624,6 +626,8 @@ impl PData {
             Array2::<f64>::zeros((self.buffersize_extra[buffer_id], particles));
         let clouds: Array2<f64> =
             Array2::<f64>::ones((self.buffersize_extra[buffer_id], particles));
+        // the window holds nothing until every one of its timesteps is read
+        self.range_extra[buffer_id] = (range.0, range.0);
         print_debug!("PData: Looping over all particles:");
         for particle_id in 0..particles {
             // for each particle find the Position at the
@@ -912,7 +916,7 @@ impl DataManager for PData {
             timestep,
             self.range
         );
-        if timestep > self.range.1 - 1 {
+        if timestep >= self.range.1 {
             self.update((timestep, timestep + self.buffersize));
         } else if timestep < self.range.0 {
             let chunck = ((timestep as f64) / (window_size(BUFFERSIZE) as f64)).floor() as usize;
@@ -1112,7 +1116,7 @@ impl DataManager for PData {
             timestep,
             self.range_extra[buffer_id]
         );
-        if timestep > self.range_extra[buffer_id].1 - 1 {
+        if timestep >= self.range_extra[buffer_id].1 {
             self.update_extra((timestep, timestep + self.buffersize), buffer_id);
         } else if self.range_extra[buffer_id].1 == self.global_stats_.ntimesteps
             && timestep < self.range_extra[buffer_id].0
diff --git a/src/datamanager/tdata.rs b/src/datamanager/tdata.rs
index 5ebbed1..806431f 100644
--- a/src/datamanager/tdata.rs
+++ b/src/datamanager/tdata.rs
@@ -332,6 +332,8 @@ impl TData {
             range.1 = timesteps;
         }
         self.buffersize = range.1 - range.0;
+        // the window holds nothing until every one of its timesteps is read
+        self.range = (range.0, range.0);
 
         print_debug!("TData: Looping over all particles:");
         for timestep in range.0..range.1 {
@@ -594,6 +596,8 @@ impl TData {
             range.1 = timesteps;
         }
         self.buffersize_extra[buffer_id] = range.1 - range.0;
+        // the window holds nothing until every one of its timesteps is read
+        self.range_extra[buffer_id] = (range.0, range.0);
 
         print_debug!("TData: Looping over all particles:");
         for timestep in range.0..range.1 {
@@ -890,7 +894,7 @@ impl DataManager for TData {
             timestep,
             self.range
         );
-        if timestep > self.range.1 - 1 {
+        if timestep >= self.range.1 {
             self.update((timestep, timestep + self.buffersize));
         } else if timestep < self.range.0 {
             let chunk = (timestep as f64 / window_size(BUFFERSIZE) as f64).floor() as usize;
@@ -1091,7 +1095,7 @@ impl DataManager for TData {
             timestep,
             self.range_extra[buffer_id]
         );
-        if timestep > self.range_extra[buffer_id].1 - 1 {
+        if timestep >= self.range_extra[buffer_id].1 {
             self.update_extra(
                 (timestep, timestep + self.buffersize_extra[buffer_id]),
                 buffer_id,
-- 
2.43.0


From b0ffafcfc1e5a464c975b10932ab619fb0349a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:35 +0000
Subject: [PATCH 03/55] fix: asking for a timestep outside the dataset is
 refused and leaves the buffer alone

---
 src/datamanager/pdata.rs | 13 +++++++++++++
 src/datamanager/tdata.rs | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 96ed71f..481f071 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -864,6 +864,17 @@ impl PData {
         print_debug!("PData: Finished buffer update")
     }
 
+    /// Panics if the dataset does not contain `timestep`
+    fn assert_in_dataset(&self, timestep: usize) {
+        let timesteps = *self.global_stats_.timesteps();
+        assert!(
+            timestep < timesteps,
+            "Timestep {} requested, but the dataset only has {} timesteps",
+            timestep,
+            timesteps
+        );
+    }
+
     pub fn test(&mut self) {
         let now = Instant::now();
         let _time = self.global_stats_.max_time();
@@ -909,6 +920,7 @@ impl DataManager for PData {
     // return a array from a given dataset at a given timestep
     fn get_timestep(&mut self, timestep: usize) -> &Timestep {
         print_debug!("PData: Extracting timestep number {}", timestep);
+        self.assert_in_dataset(timestep);
         // If a timestep is requested that is higher then the current range
         // update buffer with new range
         print_debug!(
@@ -1109,6 +1121,7 @@ impl DataManager for PData {
     /// read from other buffer then the main one
     fn get_timestep_buffer(&mut self, timestep: usize, buffer_id: usize) -> &Timestep {
         print_debug!("PData: Extracting timestep number {}", timestep);
+        self.assert_in_dataset(timestep);
         // If a timestep is requested that is higher then the current range
         // update buffer with new range
         print_debug!(
diff --git a/src/datamanager/tdata.rs b/src/datamanager/tdata.rs
index 806431f..bd98694 100644
--- a/src/datamanager/tdata.rs
+++ b/src/datamanager/tdata.rs
@@ -852,6 +852,17 @@ impl TData {
         print_debug!("TData: Finished buffer update")
     }
 
+    /// Panics if the dataset does not contain `timestep`
+    fn assert_in_dataset(&self, timestep: usize) {
+        let timesteps = *self.global_stats_.timesteps();
+        assert!(
+            timestep < timesteps,
+            "Timestep {} requested, but the dataset only has {} timesteps",
+            timestep,
+            timesteps
+        );
+    }
+
     pub fn test(&mut self) {
         let now = Instant::now();
         let _time = self.global_stats_.max_time();
@@ -887,6 +898,7 @@ impl DataManager for TData {
     // return a array from a given dataset at a given timestep
     fn get_timestep(&mut self, timestep: usize) -> &Timestep {
         print_debug!("TData: Extracting timestep number {}", timestep);
+        self.assert_in_dataset(timestep);
         // If a timestep is requested that is higher then the current range
         // update buffer with new range
         print_debug!(
@@ -1088,6 +1100,7 @@ impl DataManager for TData {
     /// read from other buffer then the main one
     fn get_timestep_buffer(&mut self, timestep: usize, buffer_id: usize) -> &Timestep {
         print_debug!("PData: Extracting timestep number {}", timestep);
+        self.assert_in_dataset(timestep);
         // If a timestep is requested that is higher then the current range
         // update buffer with new range
         print_debug!(
-- 
2.43.0


From 86dd7c0e3db34b379d9a5d835e4977c627537248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:49 +0000
Subject: [PATCH 04/55] fix: additional buffers serve their own timesteps, in
 any order and for both data layouts

---
 src/datamanager/pdata.rs | 26 +++++++++++++++-----------
 src/datamanager/tdata.rs | 15 +++++++--------
 2 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 481f071..5aa5868 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -1130,18 +1130,22 @@ impl DataManager for PData {
             self.range_extra[buffer_id]
         );
         if timestep >= self.range_extra[buffer_id].1 {
-            self.update_extra((timestep, timestep + self.buffersize), buffer_id);
-        } else if self.range_extra[buffer_id].1 == self.global_stats_.ntimesteps
-            && timestep < self.range_extra[buffer_id].0
-        {
-            self.update_extra((0, window_size(BUFFERSIZE)), buffer_id);
-        }
-        // If a timestep below the current range is requested, update buffer
-        if timestep < self.range_extra[buffer_id].0 {
-            self.update_extra((timestep, timestep + self.buffersize), buffer_id);
+            self.update_extra(
+                (timestep, timestep + self.buffersize_extra[buffer_id]),
+                buffer_id,
+            );
+        } else if timestep < self.range_extra[buffer_id].0 {
+            // If a timestep below the current range is requested, load its chunk
+            let chunk = timestep / window_size(BUFFERSIZE);
+            self.update_extra(
+                (
+                    chunk * window_size(BUFFERSIZE),
+                    (chunk + 1) * window_size(BUFFERSIZE),
+                ),
+                buffer_id,
+            );
         }
-
-        &self.buffer[timestep - self.range_extra[buffer_id].0]
+        &self.extra_buffers[buffer_id][timestep - self.range_extra[buffer_id].0]
     }
 
     fn info(&self) -> Result<String, &'static str> {
diff --git a/src/datamanager/tdata.rs b/src/datamanager/tdata.rs
index bd98694..bab6c3f 100644
--- a/src/datamanager/tdata.rs
+++ b/src/datamanager/tdata.rs
@@ -1113,15 +1113,14 @@ impl DataManager for TData {
                 (timestep, timestep + self.buffersize_extra[buffer_id]),
                 buffer_id,
             );
-        } else if self.range_extra[buffer_id].1 == self.global_stats_.ntimesteps
-            && timestep < self.range_extra[buffer_id].0
-        {
-            self.update_extra((0, window_size(BUFFERSIZE)), buffer_id);
-        }
-        // If a timestep below the current range is requested, update buffer
-        if timestep < self.range.0 {
+        } else if timestep < self.range_extra[buffer_id].0 {
+            // If a timestep below the current range is requested, load its chunk
+            let chunk = timestep / window_size(BUFFERSIZE);
             self.update_extra(
-                (timestep, timestep + self.buffersize_extra[buffer_id]),
+                (
+                    chunk * window_size(BUFFERSIZE),
+                    (chunk + 1) * window_size(BUFFERSIZE),
+                ),
                 buffer_id,
             );
         }
-- 
2.43.0


From 2ee7215b92a0ebe614f1a40bccaba63dbf3e04f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 05/55] fix: an I/O error on an optional dataset is not taken
 for a missing dataset

---
 src/datamanager/pdata.rs | 151 ++++++++++++++-------------------------
 src/datamanager/tdata.rs |  83 +++++++++++----------
 2 files changed, 94 insertions(+), 140 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 5aa5868..ede795b 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -248,19 +248,8 @@ impl PData {
             //.slice(s![timestep])
 
             print_debug!("\tParticle {}: Extracting density from HDF5.", particle_id);
-            let part_density = match self
-                .file
-                .group(&format!("particle {}", particle_id))
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not find particle {} in file {}",
-                        particle_id,
-                        self.file.filename()
-                    )
-                })
-                .dataset("density")
-            {
-                Ok(s) => s
+            let part_density = match self.optional_dataset(particle_id, "density") {
+                Some(s) => s
                     .read_1d::<f64>()
                     .unwrap_or_else(|_| {
                         panic!(
@@ -271,7 +260,7 @@ impl PData {
                         )
                     })
                     .to_owned()[timestep],
-                Err(_) => {
+                None => {
                     print_warning!(
                         "\tParticle {}: Could not find density in HDF5 file {}. \
                         Using one instead.",
@@ -422,19 +411,8 @@ impl PData {
 
             //Radius
             print_debug!("\tParticle {}: Extracting radius from HDF5.", particle_id);
-            let part_rad = match self
-                .file
-                .group(&format!("particle {}", particle_id))
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not find particle {} in file {}",
-                        particle_id,
-                        self.file.filename()
-                    )
-                })
-                .dataset("radius")
-            {
-                Ok(s) => s
+            let part_rad = match self.optional_dataset(particle_id, "radius") {
+                Some(s) => s
                     .read_1d::<f64>()
                     .unwrap_or_else(|_| {
                         panic!(
@@ -446,7 +424,7 @@ impl PData {
                     })
                     .slice(s![range.0..range.1])
                     .to_owned(),
-                Err(_) => {
+                None => {
                     print_warning!(
                         "\tParticle {}: Could not find radius in HDF5 file {}. \
                         Using zeros instead.",
@@ -457,19 +435,8 @@ impl PData {
                 }
             };
 
-            let part_type = match self
-                .file
-                .group(&format!("particle {}", particle_id))
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not find particle {} in file {}",
-                        particle_id,
-                        self.file.filename()
-                    )
-                })
-                .dataset("particletype")
-            {
-                Ok(s) => s
+            let part_type = match self.optional_dataset(particle_id, "particletype") {
+                Some(s) => s
                     .read_1d::<f64>()
                     .unwrap_or_else(|_| {
                         panic!(
@@ -481,7 +448,7 @@ impl PData {
                     })
                     .slice(s![range.0..range.1])
                     .to_owned(),
-                Err(_) => {
+                None => {
                     print_warning!(
                         "\tParticle {}: Could not find particletype in HDF5 file {}. \
                         Using zeros instead.",
@@ -492,19 +459,8 @@ impl PData {
                 }
             };
             print_debug!("\tParticle {}: Extracting density from HDF5.", particle_id);
-            let part_density = match self
-                .file
-                .group(&format!("particle {}", particle_id))
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not find particle {} in file {}",
-                        particle_id,
-                        self.file.filename()
-                    )
-                })
-                .dataset("density")
-            {
-                Ok(s) => s
+            let part_density = match self.optional_dataset(particle_id, "density") {
+                Some(s) => s
                     .read_1d::<f64>()
                     .unwrap_or_else(|_| {
                         panic!(
@@ -516,7 +472,7 @@ impl PData {
                     })
                     .slice(s![range.0..range.1])
                     .to_owned(),
-                Err(_) => {
+                None => {
                     print_warning!(
                         "\tParticle {}: Could not find density in HDF5 file {}. \
                         Using one instead.",
@@ -686,19 +642,8 @@ impl PData {
 
             //Radius
             print_debug!("\tParticle {}: Extracting radius from HDF5.", particle_id);
-            let part_rad = match self
-                .file
-                .group(&format!("particle {}", particle_id))
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not find particle {} in file {}",
-                        particle_id,
-                        self.file.filename()
-                    )
-                })
-                .dataset("radius")
-            {
-                Ok(s) => s
+            let part_rad = match self.optional_dataset(particle_id, "radius") {
+                Some(s) => s
                     .read_1d::<f64>()
                     .unwrap_or_else(|_| {
                         panic!(
@@ -710,7 +655,7 @@ impl PData {
                     })
                     .slice(s![range.0..range.1])
                     .to_owned(),
-                Err(_) => {
+                None => {
                     print_warning!(
                         "\tParticle {}: Could not find radius in HDF5 file {}. \
                         Using zeros instead.",
@@ -721,19 +666,8 @@ impl PData {
                 }
             };
 
-            let part_type = match self
-                .file
-                .group(&format!("particle {}", particle_id))
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not find particle {} in file {}",
-                        particle_id,
-                        self.file.filename()
-                    )
-                })
-                .dataset("particletype")
-            {
-                Ok(s) => s
+            let part_type = match self.optional_dataset(particle_id, "particletype") {
+                Some(s) => s
                     .read_1d::<f64>()
                     .unwrap_or_else(|_| {
                         panic!(
@@ -745,7 +679,7 @@ impl PData {
                     })
                     .slice(s![range.0..range.1])
                     .to_owned(),
-                Err(_) => {
+                None => {
                     print_warning!(
                         "\tParticle {}: Could not find particletype in HDF5 file {}. \
                         Using zeros instead.",
@@ -756,19 +690,8 @@ impl PData {
                 }
             };
             print_debug!("\tParticle {}: Extracting density from HDF5.", particle_id);
-            let part_density = match self
-                .file
-                .group(&format!("particle {}", particle_id))
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not find particle {} in file {}",
-                        particle_id,
-                        self.file.filename()
-                    )
-                })
-                .dataset("density")
-            {
-                Ok(s) => s
+            let part_density = match self.optional_dataset(particle_id, "density") {
+                Some(s) => s
                     .read_1d::<f64>()
                     .unwrap_or_else(|_| {
                         panic!(
@@ -780,7 +703,7 @@ impl PData {
                     })
                     .slice(s![range.0..range.1])
                     .to_owned(),
-                Err(_) => {
+                None => {
                     print_warning!(
                         "\tParticle {}: Could not find density in HDF5 file {}. \
                         Using one instead.",
@@ -864,6 +787,38 @@ impl PData {
         print_debug!("PData: Finished buffer update")
     }
 
+    /// Open a dataset that a file may lack. Only a dataset that is really absent
+    /// counts as missing, failing to open one that is there is an error.
+    fn optional_dataset(&self, particle: usize, name: &str) -> Option<hdf5::Dataset> {
+        let group = self
+            .file
+            .group(&format!("particle {}", particle))
+            .unwrap_or_else(|_| {
+                panic!(
+                    "Can not find particle {} in file {}",
+                    particle,
+                    self.file.filename()
+                )
+            });
+        let names = group.member_names().unwrap_or_else(|_| {
+            panic!(
+                "Can not list the datasets of particle {} in file {}",
+                particle,
+                self.file.filename()
+            )
+        });
+        if !names.iter().any(|member| member == name) {
+            return None;
+        }
+        Some(group.dataset(name).unwrap_or_else(|_| {
+            panic!(
+                "Can not open dataset \"{}\" in file {}",
+                name,
+                self.file.filename()
+            )
+        }))
+    }
+
     /// Panics if the dataset does not contain `timestep`
     fn assert_in_dataset(&self, timestep: usize) {
         let timesteps = *self.global_stats_.timesteps();
diff --git a/src/datamanager/tdata.rs b/src/datamanager/tdata.rs
index bab6c3f..5984049 100644
--- a/src/datamanager/tdata.rs
+++ b/src/datamanager/tdata.rs
@@ -165,19 +165,8 @@ impl TData {
                 )
             })
             .to_owned();
-        let density = match self
-            .file
-            .group(&format!("timestep {}", timestep))
-            .unwrap_or_else(|_| {
-                panic!(
-                    "Can not find timestep {} in file {}",
-                    timestep,
-                    self.file.filename()
-                )
-            })
-            .dataset("density")
-        {
-            Ok(s) => s
+        let density = match self.optional_dataset(timestep, "density") {
+            Some(s) => s
                 .read_1d::<f64>()
                 .unwrap_or_else(|_| {
                     panic!(
@@ -188,7 +177,7 @@ impl TData {
                     )
                 })
                 .to_owned(),
-            Err(_) => {
+            None => {
                 print_warning!(
                     "Can not find dataset \"density\" in file {} \
                     \n using ones instead ",
@@ -423,19 +412,8 @@ impl TData {
                     )
                 })
                 .to_owned();
-            let density = match self
-                .file
-                .group(&format!("timestep {}", timestep))
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not find timestep {} in file {}",
-                        timestep,
-                        self.file.filename()
-                    )
-                })
-                .dataset("density")
-            {
-                Ok(s) => s
+            let density = match self.optional_dataset(timestep, "density") {
+                Some(s) => s
                     .read_1d::<f64>()
                     .unwrap_or_else(|_| {
                         panic!(
@@ -446,7 +424,7 @@ impl TData {
                         )
                     })
                     .to_owned(),
-                Err(_) => {
+                None => {
                     print_warning!(
                         "Can not find dataset \"density\" in file {} \
                         \n using ones instead ",
@@ -687,19 +665,8 @@ impl TData {
                     )
                 })
                 .to_owned();
-            let density = match self
-                .file
-                .group(&format!("timestep {}", timestep))
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not find timestep {} in file {}",
-                        timestep,
-                        self.file.filename()
-                    )
-                })
-                .dataset("density")
-            {
-                Ok(s) => s
+            let density = match self.optional_dataset(timestep, "density") {
+                Some(s) => s
                     .read_1d::<f64>()
                     .unwrap_or_else(|_| {
                         panic!(
@@ -710,7 +677,7 @@ impl TData {
                         )
                     })
                     .to_owned(),
-                Err(_) => {
+                None => {
                     print_warning!(
                         "Can not find dataset \"density\" in file {} \
                         \n using ones instead ",
@@ -852,6 +819,38 @@ impl TData {
         print_debug!("TData: Finished buffer update")
     }
 
+    /// Open a dataset that a file may lack. Only a dataset that is really absent
+    /// counts as missing, failing to open one that is there is an error.
+    fn optional_dataset(&self, timestep: usize, name: &str) -> Option<hdf5::Dataset> {
+        let group = self
+            .file
+            .group(&format!("timestep {}", timestep))
+            .unwrap_or_else(|_| {
+                panic!(
+                    "Can not find timestep {} in file {}",
+                    timestep,
+                    self.file.filename()
+                )
+            });
+        let names = group.member_names().unwrap_or_else(|_| {
+            panic!(
+                "Can not list the datasets of timestep {} in file {}",
+                timestep,
+                self.file.filename()
+            )
+        });
+        if !names.iter().any(|member| member == name) {
+            return None;
+        }
+        Some(group.dataset(name).unwrap_or_else(|_| {
+            panic!(
+                "Can not open dataset \"{}\" in file {}",
+                name,
+                self.file.filename()
+            )
+        }))
+    }
+
     /// Panics if the dataset does not contain `timestep`
     fn assert_in_dataset(&self, timestep: usize) {
         let timesteps = *self.global_stats_.timesteps();
-- 
2.43.0


From 28a915fd91dd6114da692a2f6002f86e890e4699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:00 +0000
Subject: [PATCH 06/55] fix: unbuffered access to particle-based data works for
 any number of particles and agrees with the buffered one

---
 src/datamanager/pdata.rs | 143 +++++++++++++--------------------------
 1 file changed, 46 insertions(+), 97 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index ede795b..4b5c106 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -118,19 +118,7 @@ impl PData {
                     )
                 })
                 .slice(s![timestep, ..])
-                .to_owned()
-                .into_shape((particles, 3))
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not shape dataset \"position\" in file {} into a ({}, 3) array",
-                        self.file.filename(),
-                        particles
-                    )
-                })
-                .axis_iter(Axis(0))
-                .map(|x| [x[0], x[1], x[2]])
-                .collect::<Array1<Position>>();
-            // iter over elements in 2D array. make  it a 1D array of static arrays with 3 elements.
+                .to_owned();
 
             print_debug!("\tParticle {}: Extracting velocity from HDF5.", particle_id);
             let part_vel = self
@@ -162,91 +150,51 @@ impl PData {
 
             //Radius
             print_debug!("\tParticle {}: Extracting radius from HDF5.", particle_id);
-            let part_rad = self
-                .file
-                .group(&format!("particle {}", particle_id))
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not fine particle {} in file {}",
+            let part_rad = match self.optional_dataset(particle_id, "radius") {
+                Some(s) => s
+                    .read_1d::<f64>()
+                    .unwrap_or_else(|_| {
+                        panic!(
+                            "Can not read data from \"radius\" dataset. \
+                        Data type or data format might be wrong. \
+                        Check creation of HDF5 file  \"{:?}\"",
+                            self.file.filename()
+                        )
+                    })
+                    .to_owned()[timestep],
+                None => {
+                    print_warning!(
+                        "\tParticle {}: Could not find radius in HDF5 file {}. \
+                        Using zero instead.",
                         particle_id,
                         self.file.filename()
-                    )
-                })
-                .dataset("radius")
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not find dataset \"radius\" in HDF5 file \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .read_1d::<f64>()
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not read data from \"radius\" dataset. \
-                    Data type or data format might be wrong. \
-                    Check creation of HDF5 file  \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .to_owned()[timestep];
+                    );
+                    0.0
+                }
+            };
 
-            let part_type = self
-                .file
-                .group(&format!("particle {}", particle_id))
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not fine particle {} in file {}",
-                        particle_id,
-                        self.file.filename()
-                    )
-                })
-                .dataset("particletype")
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not find dataset \"particletype\" in HDF5 file \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .read_1d::<f64>()
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not read data from \"particletype\" dataset. \
-                    Data type or data format might be wrong. \
-                    Check creation of HDF5 file  \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .to_owned()[timestep];
-            let part_id = self
-                .file
-                .group(&format!("particle {}", particle_id))
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not fine particle {} in file {}",
+            let part_type = match self.optional_dataset(particle_id, "particletype") {
+                Some(s) => s
+                    .read_1d::<f64>()
+                    .unwrap_or_else(|_| {
+                        panic!(
+                            "Can not read data from \"particletype\" dataset. \
+                        Data type or data format might be wrong. \
+                        Check creation of HDF5 file  \"{:?}\"",
+                            self.file.filename()
+                        )
+                    })
+                    .to_owned()[timestep],
+                None => {
+                    print_warning!(
+                        "\tParticle {}: Could not find particletype in HDF5 file {}. \
+                        Using zero instead.",
                         particle_id,
                         self.file.filename()
-                    )
-                })
-                .dataset("id")
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not find dataset \"id\" in HDF5 file \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .read_1d::<f64>()
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not read data from \"id\" dataset. \
-                    Data type or data format might be wrong. \
-                    Check creation of HDF5 file  \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .to_owned()[timestep];
-
-            //.slice(s![timestep])
-
+                    );
+                    0.0
+                }
+            };
             print_debug!("\tParticle {}: Extracting density from HDF5.", particle_id);
             let part_density = match self.optional_dataset(particle_id, "density") {
                 Some(s) => s
@@ -263,11 +211,11 @@ impl PData {
                 None => {
                     print_warning!(
                         "\tParticle {}: Could not find density in HDF5 file {}. \
-                        Using one instead.",
+                        Using zero instead.",
                         particle_id,
                         self.file.filename()
                     );
-                    part_rad
+                    0.0
                 }
             };
             print_debug!("\tParticle {}: Extracting time from HDF5.", particle_id);
@@ -300,7 +248,7 @@ impl PData {
                 .to_owned()[timestep];
 
             //position.slice_mut(s![particle_id]).assign(&part_pos);
-            position[particle_id] = part_pos[particle_id];
+            position[particle_id] = [part_pos[0], part_pos[1], part_pos[2]];
             velocity.slice_mut(s![particle_id, ..]).assign(&part_vel);
 
             //radius.slice_mut(s![particle_id]).assign(&part_rad);
@@ -311,7 +259,8 @@ impl PData {
             //time.slice_mut(s![particle_id]).assign(&part_time);
             time[particle_id] = part_time;
             //particleid.slice_mut(s![particle_id]).assign(&part_id);
-            particleid[particle_id] = part_id;
+            // particles are numbered by their group, as in the buffered access
+            particleid[particle_id] = particle_id as f64;
         }
 
         print_debug!("PData: Data read. Saving new timestap and return reference.");
-- 
2.43.0


From 40a89505f7f0a78399177ee31bc66ca7663e1902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 07/55] fix: an analysis starts from empty data and weights,
 whatever the grid it is given already holds

---
 src/functions.rs             | 30 +++++++++++++++---------------
 src/grid/cartesian_grid.rs   |  1 +
 src/grid/cylindrical_grid.rs |  1 +
 3 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/functions.rs b/src/functions.rs
index 32fb8ad..9bff892 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -29,7 +29,7 @@ pub trait Granular: DataManager {
     ) -> VectorGrid {
         let global_stats = self.global_stats();
         let timesteps: &usize = global_stats.timesteps();
-        let mut vectorgrid = VectorGrid::new(gridbox);
+        let mut vectorgrid = VectorGrid::new(gridbox.new_zeros());
         for timestep in 0..=timesteps - 1 {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
@@ -464,13 +464,13 @@ pub trait Granular: DataManager {
         self.setup_buffer(0); // add another buffer to the system
                               // Allocate arrays needed for calculation
                               // those arrays are needed for the calculation of the variance with a special algorithm
-        let mut squared_sum_x = grid.get_data().clone();
-        let mut squared_sum_y = grid.get_data().clone();
-        let mut squared_sum_z = grid.get_data().clone();
-        let mut sum_x = grid.get_data().clone();
-        let mut sum_y = grid.get_data().clone();
-        let mut sum_z = grid.get_data().clone();
-        let mut num_counts = grid.get_data().clone();
+        let mut squared_sum_x = Array3::<f64>::zeros(*grid.get_cells());
+        let mut squared_sum_y = Array3::<f64>::zeros(*grid.get_cells());
+        let mut squared_sum_z = Array3::<f64>::zeros(*grid.get_cells());
+        let mut sum_x = Array3::<f64>::zeros(*grid.get_cells());
+        let mut sum_y = Array3::<f64>::zeros(*grid.get_cells());
+        let mut sum_z = Array3::<f64>::zeros(*grid.get_cells());
+        let mut num_counts = Array3::<f64>::zeros(*grid.get_cells());
         let mut dispersion_grid = grid.new_zeros();
         print_debug!("Dispersion: Initiation over, entering time loop");
 
@@ -762,13 +762,13 @@ pub trait Granular: DataManager {
         let timesteps: &usize = global_stats.timesteps();
         // calculating the mean fluicitaing velcity using a algroythm that allows
         // to only use one loop over the data
-        let mut squared_sum_x = grid.get_data().clone();
-        let mut squared_sum_y = grid.get_data().clone();
-        let mut squared_sum_z = grid.get_data().clone();
-        let mut sum_x = grid.get_data().clone();
-        let mut sum_y = grid.get_data().clone();
-        let mut sum_z = grid.get_data().clone();
-        let mut num_counts = grid.get_data().clone();
+        let mut squared_sum_x = Array3::<f64>::zeros(*grid.get_cells());
+        let mut squared_sum_y = Array3::<f64>::zeros(*grid.get_cells());
+        let mut squared_sum_z = Array3::<f64>::zeros(*grid.get_cells());
+        let mut sum_x = Array3::<f64>::zeros(*grid.get_cells());
+        let mut sum_y = Array3::<f64>::zeros(*grid.get_cells());
+        let mut sum_z = Array3::<f64>::zeros(*grid.get_cells());
+        let mut num_counts = Array3::<f64>::zeros(*grid.get_cells());
         let mut grantemp = grid.new_zeros();
         print_debug!("velocityfield: Initiation over, entering time loop");
         for timestep in 0..=timesteps - 1 {
diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index 254e5b3..950742d 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -322,6 +322,7 @@ impl GridFunctions3D for CartesianGrid3D {
     fn new_zeros(&self) -> Box<dyn GridFunctions3D> {
         let mut grid = self.clone();
         grid.data = Array::zeros(self.cells);
+        grid.weight = Array::zeros(self.cells);
         Box::new(grid)
     }
 
diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index 076fa23..68a526e 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -282,6 +282,7 @@ impl GridFunctions3D for CylindricalGrid3D {
     fn new_zeros(&self) -> Box<dyn GridFunctions3D> {
         let mut grid = self.clone();
         grid.data = Array::zeros(self.cells);
+        grid.weight = Array::zeros(self.cells);
         Box::new(grid)
     }
 
-- 
2.43.0


From 5b46541cc049aab3ef3f2ffcb0ecfdcd59369a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:38 +0000
Subject: [PATCH 08/55] fix: looking up a time returns the nearest timestep

---
 src/datamanager.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/datamanager.rs b/src/datamanager.rs
index 6652d93..1e5f0a9 100644
--- a/src/datamanager.rs
+++ b/src/datamanager.rs
@@ -112,18 +112,19 @@ impl GlobalStats {
         if self.time_array[low] > seconds {
             return Err("Timestep is smaller than the number of timesteps");
         }
-        let mut mid = (low + high) / 2;
-        while low <= high {
-            mid = (low + high) / 2;
-            if (self.time_array[mid] - seconds).abs() < 0.01 {
-                return Ok(mid);
-            } else if self.time_array[mid] < seconds {
-                low = mid + 1;
+        // time_array[low] <= seconds <= time_array[high] holds throughout
+        while high - low > 1 {
+            let mid = (low + high) / 2;
+            if self.time_array[mid] < seconds {
+                low = mid;
             } else {
-                high = mid - 1;
+                high = mid;
             }
         }
-
-        Ok(mid)
+        if seconds - self.time_array[low] <= self.time_array[high] - seconds {
+            Ok(low)
+        } else {
+            Ok(high)
+        }
     }
 }
-- 
2.43.0


From 2e0785840029526363feea53da267d03477f9303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 09/55] fix: the mean squared displacement averages the squared
 displacements, not the square of their sum

---
 src/functions/mixing.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index ec4eebd..0f77b89 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -265,11 +265,10 @@ pub trait Mixing: DataManager {
                     continue;
                 }
                 let position_future_particle = position_future[particle];
-                let dist = ((positions[particle][0] - position_future_particle[0]).powi(2)
+                let dist = (positions[particle][0] - position_future_particle[0]).powi(2)
                     + (positions[particle][1] - position_future_particle[1]).powi(2)
-                    + (positions[particle][2] - position_future_particle[2]).powi(2))
-                .sqrt();
-                distance.add_value(positions[particle], dist); // add the distance traveled to the cell id of the current particle
+                    + (positions[particle][2] - position_future_particle[2]).powi(2);
+                distance.add_value(positions[particle], dist); // add the squared distance traveled to the cell id of the current particle
             }
             check_signals!();
 
@@ -283,7 +282,7 @@ pub trait Mixing: DataManager {
         let data = data
             .iter()
             .zip(weights.iter())
-            .map(|(x, y)| if *y > 0.0 { (x * x) / y } else { 0.0 })
+            .map(|(x, y)| if *y > 0.0 { x / y } else { 0.0 })
             .collect::<Vec<f64>>();
         let data = ndarray::Array::from_shape_vec((cells[0], cells[1], cells[2]), data).unwrap();
         grid.set_data(data);
-- 
2.43.0


From e45d5489086399ba89d95a484f85f09fe90f6414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 10/55] fix: the last timesteps are part of mixing, msd,
 occupancy, circulation and extraction

---
 src/functions.rs             |  3 +--
 src/functions/conditional.rs |  6 ++++--
 src/functions/extractions.rs |  3 ++-
 src/functions/mixing.rs      | 10 +++++-----
 4 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/functions.rs b/src/functions.rs
index 9bff892..d5fb824 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -314,9 +314,8 @@ pub trait Granular: DataManager {
         let mut occupancy_grid = grid.new_zeros();
         let mut complete_time = 0.0;
         self.setup_buffer(0); //setup another buffer
-        for timestep in 0..timesteps - 3 {
+        for timestep in 0..timesteps.saturating_sub(1) {
             let timestep_data = self.get_timestep(timestep).clone();
-            //BUG this is not working, try to acces a point in the buffer that doesnt excist
             let next_timestep_data = self.get_timestep_buffer(timestep + 1, 0);
             let current_time = *timestep_data.time();
             let next_time = *next_timestep_data.time();
diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index b36bd74..2342e9e 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -21,12 +21,13 @@ pub trait Conditional: DataManager {
         let mut time_flag_array = Array1::<f64>::zeros(particle_number + 1);
 
         let mut old_timestep = self.get_timestep(0).to_owned();
-        for timestep in 1..timesteps - 1 {
+        for timestep in 1..*timesteps {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
             // check if timestep is in the timeframe given
             if !selector.timestep_valid(current_time) {
                 print_debug!("Timestep {} is not valid", timestep);
+                old_timestep = timestep_data.to_owned();
                 continue;
             }
             print_debug!("Timestep {} is valid", timestep);
@@ -110,12 +111,13 @@ pub trait Conditional: DataManager {
      
         let mut old_timestep = self.get_timestep(0).to_owned();
         let mut count = 0;
-        for timestep in 1..timesteps - 1 {
+        for timestep in 1..*timesteps {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
             // check if timestep is in the timeframe given
             if !selector.timestep_valid(current_time) {
                 print_debug!("Timestep {} is not valid", timestep);
+                old_timestep = timestep_data.to_owned();
                 continue;
             }
             print_debug!("Timestep {} is valid", timestep);
diff --git a/src/functions/extractions.rs b/src/functions/extractions.rs
index b0a097e..68ba661 100644
--- a/src/functions/extractions.rs
+++ b/src/functions/extractions.rs
@@ -12,7 +12,8 @@ pub trait Extraction: DataManager {
     fn extract(&mut self, particle_id: usize, timestep: (usize, usize)) -> ndarray::Array2<f64> {
         let global_stats = self.global_stats();
         let timesteps: &usize = global_stats.timesteps();
-        if &timestep.0 >= timesteps || &timestep.1 >= timesteps {
+        // the end of the range is exclusive
+        if &timestep.0 >= timesteps || &timestep.1 > timesteps {
             panic!("Timestep out of bounds");
         }
         let mut return_data: ndarray::Array2<f64> =
diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index 0f77b89..2b4c5da 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -17,10 +17,10 @@ pub trait Mixing: DataManager {
         let global_stats = self.global_stats();
         let timesteps: &usize = global_stats.timesteps();
         print_debug!("velocityfield: Initiation over, entering time loop");
-        let mut mixing = ndarray::Array1::<f64>::zeros(*timesteps - 1);
-        let mut time = ndarray::Array1::<f64>::zeros(*timesteps - 1);
+        let mut mixing = ndarray::Array1::<f64>::zeros(*timesteps);
+        let mut time = ndarray::Array1::<f64>::zeros(*timesteps);
 
-        for timestep in 0..timesteps - 1 {
+        for timestep in 0..*timesteps {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
             // check if timestep is in the timeframe given
@@ -129,7 +129,7 @@ pub trait Mixing: DataManager {
         let timesteps: &usize = global_stats.timesteps();
         let mut type_a_grid = grid.new_zeros();
         let mut type_b_grid = grid.new_zeros();
-        for timestep in 0..timesteps - 1 {
+        for timestep in 0..*timesteps {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
             // check if timestep is in the timeframe given
@@ -212,7 +212,7 @@ pub trait Mixing: DataManager {
         print_debug!("Dispersion: Initiation over, entering time loop");
 
         let mut next_timestep;
-        for timestep in 0..timesteps - 1 {
+        for timestep in 0..*timesteps {
             let timestep_data = self.get_timestep(timestep).clone();
             let current_time = *timestep_data.time();
             // check if timestep is in the timeframe given
-- 
2.43.0


From f703c096cf8fe38e4b3027a816fdc1124f65b949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 11/55] fix: a particle is followed between timesteps by its
 id, and mixing survives a type that is not there yet

---
 src/functions.rs        | 35 +++++++++++++++++++++++++++--------
 src/functions/mixing.rs | 13 ++++++++++---
 2 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/functions.rs b/src/functions.rs
index d5fb824..cda15f9 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -1,7 +1,7 @@
 pub mod conditional;
 pub mod extractions;
 pub mod mixing;
-use crate::datamanager::DataManager;
+use crate::datamanager::{DataManager, Timestep};
 //use crate::utilities::print_debug;
 use crate::{check_signals, print_debug, print_warning};
 extern crate ndarray;
@@ -13,6 +13,17 @@ use crate::{
     ParticleSelector, Selector,
 };
 use ndarray::prelude::*;
+
+/// Row of the particle `particleid` in `timestep`, None if it is not part of it.
+/// Usually a particle keeps its row (`row`) from one timestep to the next.
+fn same_particle(timestep: &Timestep, row: usize, particleid: f64) -> Option<usize> {
+    let ids = timestep.particleid();
+    if ids.get(row) == Some(&particleid) {
+        return Some(row);
+    }
+    ids.iter().position(|id| *id == particleid)
+}
+
 pub trait Granular: DataManager {
     /// Calculate a 2D velocity vectorfield across `grid`, optionally normalising values to 1.
     /// The 3D data is projected in 2D according to `axis`.
@@ -381,12 +392,15 @@ pub trait Granular: DataManager {
                     print_warning!("Occupyfield: timestep is negative");
                     continue;
                 }
-                //TODO BUG this is not valit code. we must check which particle is at which position
-                if next_positions.len() <= particle {
-                    print_warning!("Occupyfield: next timestep has less particles");
-                    continue;
-                }
-                occupancy_grid.add_trajectory_value(position, next_positions[particle], time_spent);
+                let next_row =
+                    match same_particle(next_timestep_data, particle, particle_ids[particle]) {
+                        Some(row) => row,
+                        None => {
+                            print_warning!("Occupyfield: particle left the system");
+                            continue;
+                        }
+                    };
+                occupancy_grid.add_trajectory_value(position, next_positions[next_row], time_spent);
                 complete_time += time_spent;
             }
             // checking for kill signals after each timestep
@@ -544,7 +558,12 @@ pub trait Granular: DataManager {
                         continue;
                     }
                 };
-                let position_future_particle = position_future[particle];
+                let future_row =
+                    match same_particle(timestep_future, particle, particle_ids[particle]) {
+                        Some(row) => row,
+                        None => continue,
+                    };
+                let position_future_particle = position_future[future_row];
                 squared_sum_x[cell_id] += position_future_particle[0] * position_future_particle[0];
                 squared_sum_y[cell_id] += position_future_particle[1] * position_future_particle[1];
                 squared_sum_z[cell_id] += position_future_particle[2] * position_future_particle[2];
diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index 2b4c5da..da8bc2f 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -88,8 +88,10 @@ pub trait Mixing: DataManager {
             let sum_grid = type_b_grid.get_data() + type_a_grid.get_data();
             type_a_grid.divide_by_array(&sum_grid);
             let concentration = type_a_grid.get_data();
-            let mean_concentration =
-                type_counter[type_a] as f64 / (type_counter[type_a] + type_counter[type_b]) as f64;
+            // a type without any particle in this timestep may not have a counter
+            let count_a = type_counter.get(type_a).copied().unwrap_or(0);
+            let count_b = type_counter.get(type_b).copied().unwrap_or(0);
+            let mean_concentration = count_a as f64 / (count_a + count_b) as f64;
             let mut mixing_value = 0.0;
             for (conc, num) in concentration
                 .iter()
@@ -264,7 +266,12 @@ pub trait Mixing: DataManager {
                     print_debug!("Particle {} is out of FoV", particle);
                     continue;
                 }
-                let position_future_particle = position_future[particle];
+                let future_row =
+                    match same_particle(timestep_future, particle, particle_ids[particle]) {
+                        Some(row) => row,
+                        None => continue,
+                    };
+                let position_future_particle = position_future[future_row];
                 let dist = (positions[particle][0] - position_future_particle[0]).powi(2)
                     + (positions[particle][1] - position_future_particle[1]).powi(2)
                     + (positions[particle][2] - position_future_particle[2]).powi(2);
-- 
2.43.0


From 962c1edd6386abb2f23a03f7cb030af7d52ce075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 12/55] fix: a missing velocity or future position, or a
 rounding error, no longer turns a whole cell into NaN

---
 src/functions.rs        | 15 ++++++++++++++-
 src/functions/mixing.rs |  4 ++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/functions.rs b/src/functions.rs
index cda15f9..e4ec410 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -86,6 +86,10 @@ pub trait Granular: DataManager {
                     print_debug!("Particle {} is out of FoV", particle);
                     continue;
                 }
+                if velocity.iter().any(|x| x.is_nan()) {
+                    print_debug!("Particle {} has no velocity", particle);
+                    continue;
+                }
                 let velocity = vectorgrid.velocity_calculation(position, velocity);
 
                 vectorgrid.data[0].add_value(position, velocity[0]);
@@ -564,6 +568,10 @@ pub trait Granular: DataManager {
                         None => continue,
                     };
                 let position_future_particle = position_future[future_row];
+                if position_future_particle.iter().any(|x| x.is_nan()) {
+                    print_debug!("Particle {} has no future position", particle);
+                    continue;
+                }
                 squared_sum_x[cell_id] += position_future_particle[0] * position_future_particle[0];
                 squared_sum_y[cell_id] += position_future_particle[1] * position_future_particle[1];
                 squared_sum_z[cell_id] += position_future_particle[2] * position_future_particle[2];
@@ -839,6 +847,10 @@ pub trait Granular: DataManager {
                     grid.get_zpositions()
                 );
                 let velocity = velocities.slice(s![particle, ..]);
+                if velocity.iter().any(|x| x.is_nan()) {
+                    print_debug!("Particle {} has no velocity", particle);
+                    continue;
+                }
                 let cell_id = match grid.cell_id(position) {
                     Ok(cell_id) => cell_id,
                     Err(_) => continue,
@@ -872,7 +884,8 @@ pub trait Granular: DataManager {
             panic!("Mode {} is not supported", mode);
         }
         temp /= &num_counts;
-        temp.mapv_inplace(|x| x.sqrt());
+        // rounding may leave a variance of zero slightly negative
+        temp.mapv_inplace(|x| if x < 0.0 { 0.0 } else { x.sqrt() });
         grantemp.set_data(temp);
         grantemp.set_weights(num_counts);
         grantemp
diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index da8bc2f..d288ea5 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -272,6 +272,10 @@ pub trait Mixing: DataManager {
                         None => continue,
                     };
                 let position_future_particle = position_future[future_row];
+                if position_future_particle.iter().any(|x| x.is_nan()) {
+                    print_debug!("Particle {} has no future position", particle);
+                    continue;
+                }
                 let dist = (positions[particle][0] - position_future_particle[0]).powi(2)
                     + (positions[particle][1] - position_future_particle[1]).powi(2)
                     + (positions[particle][2] - position_future_particle[2]).powi(2);
-- 
2.43.0


From f2bec184b2a9b2f00a46740d20910af279300648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 13/55] fix: the histogram counts each speed inside its edges
 once and nothing else

---
 src/functions.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/functions.rs b/src/functions.rs
index e4ec410..bc8f20e 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -747,13 +747,14 @@ pub trait Granular: DataManager {
                     + velocity[1] * velocity[1]
                     + velocity[2] * velocity[2])
                     .sqrt();
-                let bin = ((velocity_mag - bin_edges[0]) / (bin_edges[1] - bin_edges[0])).floor()
-                    as usize;
-                // BUG: bin is sometimes out of bounds
-                if bin > bins - 1 {
+                // NaN and everything outside of the edges belongs to no bin
+                if !(velocity_mag >= bin_edges[0] && velocity_mag <= bin_edges[bins]) {
                     continue;
                 }
-                histogram[bin] += 1.0;
+                let bin = ((velocity_mag - bin_edges[0]) / (bin_edges[1] - bin_edges[0])).floor()
+                    as usize;
+                // the last bin includes its right edge
+                histogram[bin.min(bins - 1)] += 1.0;
             }
             // checking for kill signals after each timestep
             check_signals!();
-- 
2.43.0


From efb0d9876d7cb3e85a9fb6048d621e3739227eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 14/55] fix: cloud and density selections use their own bounds

---
 src/particleselector.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/particleselector.rs b/src/particleselector.rs
index d5ee735..63a3543 100644
--- a/src/particleselector.rs
+++ b/src/particleselector.rs
@@ -67,7 +67,7 @@ impl ParticleSelector {
         }
         if self.clouds.len() == 1 {
             cloud == self.clouds[0]
-        } else if self.radius.len() == 2 {
+        } else if self.clouds.len() == 2 {
             cloud >= self.clouds[0] && cloud <= self.clouds[1]
         } else {
             self.clouds.contains(&cloud)
@@ -80,8 +80,8 @@ impl ParticleSelector {
         }
         if self.density.len() == 1 {
             density == self.density[0]
-        } else if self.radius.len() == 2 {
-            density >= self.density[0] && density <= self.radius[1]
+        } else if self.density.len() == 2 {
+            density >= self.density[0] && density <= self.density[1]
         } else {
             self.density.contains(&density)
         }
-- 
2.43.0


From dccce45376085109a98b32765db2274ea0f22eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:15 +0000
Subject: [PATCH 15/55] fix: minimum and maximum of the global statistics are
 tracked independently

---
 src/converter.rs                              | 33 ++++++++++++-------
 src/converter/csv_modes/csv_multi_chain.rs    | 15 ++++++---
 .../csv_modes/csv_multi_file_time_step.rs     | 15 ++++++---
 src/converter/csv_modes/csv_multi_idline.rs   | 21 ++++++++----
 4 files changed, 56 insertions(+), 28 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index cf7a837..d73c35b 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -229,7 +229,8 @@ pub fn csv_converter(
             print_debug!("  i: {}", i);
             if vel[i] < velocity[[i, 0]] {
                 velocity[[i, 0]] = vel[i];
-            } else if vel[i] > velocity[[i, 2]] {
+            }
+            if vel[i] > velocity[[i, 2]] {
                 velocity[[i, 2]] = vel[i];
             }
             velocity[[i, 1]] += vel[i];
@@ -239,24 +240,28 @@ pub fn csv_converter(
         // check if vel magnitude is bigger or smaller then the current biggest or smallest
         if vel_mag < velocity_mag[0] {
             velocity_mag[0] = vel_mag;
-        } else if vel_mag > velocity_mag[2] {
+        }
+        if vel_mag > velocity_mag[2] {
             velocity_mag[2] = vel_mag;
         }
         velocity_mag[1] += vel_mag;
 
         if pos[0] < dimensions[[0, 0]] {
             dimensions[[0, 0]] = pos[0];
-        } else if pos[0] > dimensions[[1, 0]] {
+        }
+        if pos[0] > dimensions[[1, 0]] {
             dimensions[[1, 0]] = pos[0];
         }
         if pos[1] < dimensions[[0, 1]] {
             dimensions[[0, 1]] = pos[1];
-        } else if pos[1] > dimensions[[1, 1]] {
+        }
+        if pos[1] > dimensions[[1, 1]] {
             dimensions[[1, 1]] = pos[1];
         }
         if pos[2] < dimensions[[0, 2]] {
             dimensions[[0, 2]] = pos[2];
-        } else if pos[2] > dimensions[[1, 2]] {
+        }
+        if pos[2] > dimensions[[1, 2]] {
             dimensions[[1, 2]] = pos[2];
         }
         step += 1;
@@ -740,7 +745,8 @@ impl XMLVTKConverter {
                     print_debug!("  i: {}", i);
                     if vel[i] < velocity[[i, 0]] {
                         velocity[[i, 0]] = vel[i];
-                    } else if vel[i] > velocity[[i, 2]] {
+                    }
+                    if vel[i] > velocity[[i, 2]] {
                         velocity[[i, 2]] = vel[i];
                     }
                     velocity[[i, 1]] += vel[i];
@@ -748,7 +754,8 @@ impl XMLVTKConverter {
                 let vel_mag = vel.map(|v| v * v).sum().sqrt();
                 if vel_mag < velocity_mag[0] {
                     velocity_mag[0] = vel_mag;
-                } else if vel_mag > velocity_mag[2] {
+                }
+                if vel_mag > velocity_mag[2] {
                     velocity_mag[2] = vel_mag;
                 }
                 velocity_mag[1] += vel_mag;
@@ -773,7 +780,8 @@ impl XMLVTKConverter {
                 for i in 0..3 {
                     if pos[i] < dimensions[[0, i]] {
                         dimensions[[0, i]] = pos[i];
-                    } else if pos[i] > dimensions[[1, i]] {
+                    }
+                    if pos[i] > dimensions[[1, i]] {
                         dimensions[[1, i]] = pos[i];
                     }
                 }
@@ -1166,7 +1174,8 @@ impl LegacyVTKConverter {
                     print_debug!("  i: {}", i);
                     if vel[i] < velocity[[i, 0]] {
                         velocity[[i, 0]] = vel[i];
-                    } else if vel[i] > velocity[[i, 2]] {
+                    }
+                    if vel[i] > velocity[[i, 2]] {
                         velocity[[i, 2]] = vel[i];
                     }
                     velocity[[i, 1]] += vel[i];
@@ -1174,7 +1183,8 @@ impl LegacyVTKConverter {
                 let vel_mag = vel.map(|v| v * v).sum().sqrt();
                 if vel_mag < velocity_mag[0] {
                     velocity_mag[0] = vel_mag;
-                } else if vel_mag > velocity_mag[2] {
+                }
+                if vel_mag > velocity_mag[2] {
                     velocity_mag[2] = vel_mag;
                 }
                 velocity_mag[1] += vel_mag;
@@ -1197,7 +1207,8 @@ impl LegacyVTKConverter {
                 for i in 0..3 {
                     if pos[i] < dimensions[[0, i]] {
                         dimensions[[0, i]] = pos[i];
-                    } else if pos[i] > dimensions[[1, i]] {
+                    }
+                    if pos[i] > dimensions[[1, i]] {
                         dimensions[[1, i]] = pos[i];
                     }
                 }
diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 94c9f6a..220502b 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -243,7 +243,8 @@ pub fn csv_multi_chain(
                 print_debug!("  i: {}", i);
                 if vel[i] < velocity[[i, 0]] {
                     velocity[[i, 0]] = vel[i];
-                } else if vel[i] > velocity[[i, 2]] {
+                }
+                if vel[i] > velocity[[i, 2]] {
                     velocity[[i, 2]] = vel[i];
                 }
                 velocity[[i, 1]] += vel[i];
@@ -253,24 +254,28 @@ pub fn csv_multi_chain(
             // check if vel magnitude is bigger or smaller then the current biggest or smallest
             if vel_mag < velocity_mag[0] {
                 velocity_mag[0] = vel_mag;
-            } else if vel_mag > velocity_mag[2] {
+            }
+            if vel_mag > velocity_mag[2] {
                 velocity_mag[2] = vel_mag;
             }
             velocity_mag[1] += vel_mag;
 
             if pos[0] < dimensions[[0, 0]] {
                 dimensions[[0, 0]] = pos[0];
-            } else if pos[0] > dimensions[[1, 0]] {
+            }
+            if pos[0] > dimensions[[1, 0]] {
                 dimensions[[1, 0]] = pos[0];
             }
             if pos[1] < dimensions[[0, 1]] {
                 dimensions[[0, 1]] = pos[1];
-            } else if pos[1] > dimensions[[1, 1]] {
+            }
+            if pos[1] > dimensions[[1, 1]] {
                 dimensions[[1, 1]] = pos[1];
             }
             if pos[2] < dimensions[[0, 2]] {
                 dimensions[[0, 2]] = pos[2];
-            } else if pos[2] > dimensions[[1, 2]] {
+            }
+            if pos[2] > dimensions[[1, 2]] {
                 dimensions[[1, 2]] = pos[2];
             }
             //step += 1;
diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index bc52020..318914b 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -159,7 +159,8 @@ pub fn csv_multi_file_time_step(
                 print_debug!("  i: {}", i);
                 if vel[i] < velocity[[i, 0]] {
                     velocity[[i, 0]] = vel[i];
-                } else if vel[i] > velocity[[i, 2]] {
+                }
+                if vel[i] > velocity[[i, 2]] {
                     velocity[[i, 2]] = vel[i];
                 }
                 velocity[[i, 1]] += vel[i];
@@ -167,7 +168,8 @@ pub fn csv_multi_file_time_step(
             let vel_mag = vel.map(|v| v * v).sum().sqrt();
             if vel_mag < velocity_mag[0] {
                 velocity_mag[0] = vel_mag;
-            } else if vel_mag > velocity_mag[2] {
+            }
+            if vel_mag > velocity_mag[2] {
                 velocity_mag[2] = vel_mag;
             }
             velocity_mag[1] += vel_mag;
@@ -184,7 +186,8 @@ pub fn csv_multi_file_time_step(
             for i in 0..3 {
                 if pos[i] < dimensions[[0, i]] {
                     dimensions[[0, i]] = pos[i];
-                } else if pos[i] > dimensions[[1, i]] {
+                }
+                if pos[i] > dimensions[[1, i]] {
                     dimensions[[1, i]] = pos[i];
                 }
             }
@@ -287,12 +290,14 @@ fn sort_by_id(data: ndarray::Array2<f64>) -> (Vec<ndarray::Array2<f64>>, f64, us
 
             if id < min_id {
                 min_id = id;
-            } else if id > max_id {
+            }
+            if id > max_id {
                 max_id = id;
             }
             if t < min_t {
                 min_t = t;
-            } else if t > max_t {
+            }
+            if t > max_t {
                 max_t = t;
             }
             if !ids.contains(&id) {
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index ba5e15e..6521519 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -216,7 +216,8 @@ pub fn csv_multi_idline(
                 print_debug!("  i: {}", i);
                 if vel[i] < velocity[[i, 0]] {
                     velocity[[i, 0]] = vel[i];
-                } else if vel[i] > velocity[[i, 2]] {
+                }
+                if vel[i] > velocity[[i, 2]] {
                     velocity[[i, 2]] = vel[i];
                 }
                 velocity[[i, 1]] += vel[i];
@@ -226,24 +227,28 @@ pub fn csv_multi_idline(
             // check if vel magnitude is bigger or smaller then the current biggest or smallest
             if vel_mag < velocity_mag[0] {
                 velocity_mag[0] = vel_mag;
-            } else if vel_mag > velocity_mag[2] {
+            }
+            if vel_mag > velocity_mag[2] {
                 velocity_mag[2] = vel_mag;
             }
             velocity_mag[1] += vel_mag;
 
             if pos[0] < dimensions[[0, 0]] {
                 dimensions[[0, 0]] = pos[0];
-            } else if pos[0] > dimensions[[1, 0]] {
+            }
+            if pos[0] > dimensions[[1, 0]] {
                 dimensions[[1, 0]] = pos[0];
             }
             if pos[1] < dimensions[[0, 1]] {
                 dimensions[[0, 1]] = pos[1];
-            } else if pos[1] > dimensions[[1, 1]] {
+            }
+            if pos[1] > dimensions[[1, 1]] {
                 dimensions[[1, 1]] = pos[1];
             }
             if pos[2] < dimensions[[0, 2]] {
                 dimensions[[0, 2]] = pos[2];
-            } else if pos[2] > dimensions[[1, 2]] {
+            }
+            if pos[2] > dimensions[[1, 2]] {
                 dimensions[[1, 2]] = pos[2];
             }
             //step += 1;
@@ -384,12 +389,14 @@ fn sort_by_id(data: ndarray::Array2<f64>) -> (Vec<ndarray::Array2<f64>>, f64, us
 
             if id < min_id {
                 min_id = id;
-            } else if id > max_id {
+            }
+            if id > max_id {
                 max_id = id;
             }
             if t < min_t {
                 min_t = t;
-            } else if t > max_t {
+            }
+            if t > max_t {
                 max_t = t;
             }
             if !ids.contains(&id) {
-- 
2.43.0


From bf26e7f6577f92abeaf7ca89f231b1d245c31dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 16/55] fix: CSV conversion keeps the row at time zero and
 records the real time range and particle count

---
 src/converter.rs                               | 14 ++++++++------
 src/converter/csv_modes/csv_multi_chain.rs     |  2 +-
 .../csv_modes/csv_multi_file_time_step.rs      |  7 +++++--
 src/converter/csv_modes/csv_multi_idline.rs    | 18 +++++++++++-------
 4 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index d73c35b..df03bb3 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -175,7 +175,7 @@ pub fn csv_converter(
 
     let mut mean_counter: usize = 0;
     let mut failcount = 0;
-    let mut old_time = 0.0; // TIme of the last falid timestep
+    let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
     let mut step = 0;
     print_debug!("Creating a new group \"particle {}\"", step);
     let group = hdf5file
@@ -208,6 +208,9 @@ pub fn csv_converter(
         time_array[line_id - total_failcount] = current_time;
         // resetfailcount. we only dont allow them do be in a row!
         failcount = 0;
+        if mean_counter > 0 {
+            sample_rate = current_time - old_time;
+        }
         old_time = current_time;
         let pos_x = line[1];
         let pos_y = line[2];
@@ -264,13 +267,12 @@ pub fn csv_converter(
         if pos[2] > dimensions[[1, 2]] {
             dimensions[[1, 2]] = pos[2];
         }
+        if mean_counter == 0 {
+            time[0] = current_time;
+        }
         step += 1;
         mean_counter += 1;
-        sample_rate = current_time - old_time;
-        if current_time > time[1] {
-            time[1] = current_time;
-        }
-        old_time = current_time;
+        time[1] = current_time;
         if line_id % 1000 == 0 {
             bar.inc(1000);
             check_signals!();
diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 220502b..42cf5fb 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -192,7 +192,7 @@ pub fn csv_multi_chain(
         let mut vel_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut pos_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut failcount = 0;
-        let mut old_time = 0.0; // TIme of the last falid timestep
+        let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
 
         print_debug!("Creating a new group \"particle {}\"", p_id);
         let group = hdf5file
diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index 318914b..0ece165 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -74,7 +74,10 @@ pub fn csv_multi_file_time_step(
             .create_group(&format!("timestep {}", id))
             .unwrap_or_else(|_| panic!("Can not create group timestep {}", id));
         let current_time = time_[id];
-        if current_time > time[1] {
+        if id == 0 || current_time < time[0] {
+            time[0] = current_time;
+        }
+        if id == 0 || current_time > time[1] {
             time[1] = current_time;
         }
         time_array.push(current_time);
@@ -200,7 +203,7 @@ pub fn csv_multi_file_time_step(
                 panic!("Unable to create dataset \"position\" in file {}", filename)
             });
         mean_counter += particle_id.len();
-        nparticles = particle_id.len() as u64;
+        nparticles = nparticles.max(particle_id.len() as u64);
         sample_rate = current_time - old_time;
         old_time = current_time;
         if id % 10 == 0 {
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index 6521519..11713d6 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -164,7 +164,7 @@ pub fn csv_multi_idline(
         let mut vel_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut pos_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut failcount = 0;
-        let mut old_time = 0.0; // TIme of the last falid timestep
+        let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
 
         print_debug!("Creating a new group \"particle {}\"", p_id);
         let group = hdf5file
@@ -194,6 +194,9 @@ pub fn csv_multi_idline(
             time_array[line_id] = current_time;
             // resetfailcount. we only dont allow them do be in a row!
             failcount = 0;
+            if line_id > 0 {
+                sample_rate = current_time - old_time;
+            }
             old_time = current_time;
             let pos_x = line[1];
             let pos_y = line[2];
@@ -251,13 +254,14 @@ pub fn csv_multi_idline(
             if pos[2] > dimensions[[1, 2]] {
                 dimensions[[1, 2]] = pos[2];
             }
-            //step += 1;
-            mean_counter += 1;
-            sample_rate = current_time - old_time;
-            if current_time > time[1] {
+            if mean_counter == 0 || current_time < time[0] {
+                time[0] = current_time;
+            }
+            if mean_counter == 0 || current_time > time[1] {
                 time[1] = current_time;
             }
-            old_time = current_time;
+            //step += 1;
+            mean_counter += 1;
             if line_id % 1000 == 0 {
                 check_signals!();
             }
@@ -331,7 +335,7 @@ pub fn csv_multi_idline(
         .new_attr::<u64>()
         .create("particle number")
         .unwrap()
-        .write_scalar(&1_usize)
+        .write_scalar(&particle_data.len())
         .unwrap();
     hdf5file
         .new_attr::<u64>()
-- 
2.43.0


From fb77896b6d2525208b7ffc966a6f4d71f4e43c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 17/55] fix: one-CSV-per-timestep conversion stores the
 particle radius it is given

---
 src/converter/csv_modes/csv_multi_file_time_step.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index 0ece165..0eff175 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -128,7 +128,7 @@ pub fn csv_multi_file_time_step(
         let builder = group.new_dataset_builder();
         let zero_array = vec![0.0; particle_id.len()];
         builder
-            .with_data(&zero_array)
+            .with_data(&vec![radius; particle_id.len()])
             .create("radius")
             .unwrap_or_else(|_| panic!("Unable to create dataset \"radius\" in file {}", filename));
 
-- 
2.43.0


From 4c2ccc12555d3ec76eb5a3172ff6e4904435c34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 18/55] fix: a conversion reports data that could not be
 written

---
 src/converter.rs                                    | 9 +++++++++
 src/converter/csv_modes/csv_multi_chain.rs          | 3 +++
 src/converter/csv_modes/csv_multi_file_time_step.rs | 3 +++
 src/converter/csv_modes/csv_multi_idline.rs         | 3 +++
 4 files changed, 18 insertions(+)

diff --git a/src/converter.rs b/src/converter.rs
index df03bb3..a64613c 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -381,6 +381,9 @@ pub fn csv_converter(
         .with_data(&time_array)
         .create("time array")
         .unwrap();
+    hdf5file
+        .flush()
+        .expect("Unable to write HDF5 file.");
 
     bar.finish();
     print_debug!("Finished with conversion from vtk to HDF5 ");
@@ -860,6 +863,9 @@ impl XMLVTKConverter {
             .with_data(&time_array)
             .create("time array")
             .unwrap();
+        output_file
+            .flush()
+            .expect("Unable to write HDF5 file.");
 
         progress_bar.finish();
         print_debug!("Finished with conversion from vtk to HDF5 ");
@@ -1287,6 +1293,9 @@ impl LegacyVTKConverter {
             .with_data(&time_array)
             .create("time array")
             .unwrap();
+        output_file
+            .flush()
+            .expect("Unable to write HDF5 file.");
 
         progress_bar.finish();
         print_debug!("Finished with conversion from vtk to HDF5 ");
diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 42cf5fb..fe98020 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -393,4 +393,7 @@ pub fn csv_multi_chain(
         .with_data(&time_array)
         .create("time array")
         .unwrap();
+    hdf5file
+        .flush()
+        .expect("Unable to write HDF5 file.");
 }
diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index 0eff175..371ff34 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -267,6 +267,9 @@ pub fn csv_multi_file_time_step(
         .with_data(&time_array)
         .create("time array")
         .unwrap();
+    hdf5file
+        .flush()
+        .expect("Unable to write HDF5 file.");
 
     print_debug!("Finished with conversion from vtk to HDF5 ");
     bar.finish()
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index 11713d6..59d43c5 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -369,6 +369,9 @@ pub fn csv_multi_idline(
         .with_data(&time_array)
         .create("time array")
         .unwrap();
+    hdf5file
+        .flush()
+        .expect("Unable to write HDF5 file.");
     bar.finish()
 }
 
-- 
2.43.0


From 4ec881fa415a26f1277bdec8c9bcaf061cf207b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 19/55] fix: Cartesian cells are where their positions and
 slices say they are

---
 src/grid/cartesian_grid.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index 950742d..ce2b540 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -134,12 +134,16 @@ impl GridFunctions3D for CartesianGrid3D {
                 self.limits
             ));
         }
-        let cell_idx = ((pos[0] - self.limits[0][0]) / (self.limits[0][1] - self.limits[0][0])
-            * (self.cells[0] - 1) as f64) as usize;
-        let cell_idy = ((pos[1] - self.limits[1][0]) / (self.limits[1][1] - self.limits[1][0])
-            * (self.cells[1] - 1) as f64) as usize;
-        let cell_idz = ((pos[2] - self.limits[2][0]) / (self.limits[2][1] - self.limits[2][0])
-            * (self.cells[2] - 1) as f64) as usize;
+        // the upper limit belongs to the last cell
+        let cell_idx = (((pos[0] - self.limits[0][0]) / (self.limits[0][1] - self.limits[0][0])
+            * self.cells[0] as f64) as usize)
+            .min(self.cells[0] - 1);
+        let cell_idy = (((pos[1] - self.limits[1][0]) / (self.limits[1][1] - self.limits[1][0])
+            * self.cells[1] as f64) as usize)
+            .min(self.cells[1] - 1);
+        let cell_idz = (((pos[2] - self.limits[2][0]) / (self.limits[2][1] - self.limits[2][0])
+            * self.cells[2] as f64) as usize)
+            .min(self.cells[2] - 1);
 
         Ok([cell_idx, cell_idy, cell_idz])
     }
@@ -411,9 +415,13 @@ impl GridFunctions3D for CartesianGrid3D {
 
     fn slice(&self, axis: usize, position: f64) -> Array2<f64> {
         // find the length of theplane in each direction with triangulation
-        let cell_id = ((position - self.limits[axis][0])
+        let mut cell_id = ((position - self.limits[axis][0])
             / (self.limits[axis][1] - self.limits[axis][0])
             * self.cells[axis] as f64) as usize;
+        if position == self.limits[axis][1] {
+            // the upper limit belongs to the last cell
+            cell_id = self.cells[axis] - 1;
+        }
 
         if axis == 0 {
             self.data.slice(s![cell_id, .., ..]).to_owned()
-- 
2.43.0


From ef3c946418e6c8506c970cafcba55b8b1626c089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:38 +0000
Subject: [PATCH 20/55] fix: cylindrical cells contain the samples binned into
 them, the wall included, and velocities refer to the cylinder axis

---
 src/grid/cylindrical_grid.rs | 32 +++++++++++++++++---------------
 src/grid/vector_grid.rs      |  3 +++
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index 68a526e..cc55525 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -7,7 +7,7 @@ use ndarray::{prelude::*, RemoveAxis};
 use ndarray_stats::QuantileExt;
 use std::any::Any;
 
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 // TODO
 // - Currently the cylinder is always vertical, but this should be configurable.
 #[derive(Getters, Clone, Default)]
@@ -97,6 +97,10 @@ impl CylindricalGrid3D {
                 inner_radius = new;
             }
         }
+        // rounding must not leave the wall out of the last cell
+        if let Some(last) = rpositions.last_mut() {
+            last[1] = outer_radius;
+        }
 
         let lim = [
             [0.0, outer_radius],    // radius
@@ -187,6 +191,13 @@ impl GridFunctions3D for CylindricalGrid3D {
 
     fn cell_id(&self, pos: Position) -> Result<CellId> {
         print_debug!("Grid3D: Checking if {:?} is in grid", pos);
+        if !self.is_inside(pos) {
+            return Err(anyhow!(
+                "Position {:?} is outside of grid limits {:?}",
+                pos,
+                self.limits
+            ));
+        }
         let pos = &self.to_cylindrical(pos);
         let posr = pos[0];
         let mut cell_idr = None;
@@ -201,20 +212,11 @@ impl GridFunctions3D for CylindricalGrid3D {
                 posr, self.rpositions
             )
         });
-        let poso = pos[1];
-        let cell_ido = (&self.opositions - poso)
-            .iter()
-            .map(|x| x.abs())
-            .collect::<Array1<f64>>()
-            .argmin()
-            .unwrap_or_else(|_| panic!("Can not find min of {:?} in Gri3D", pos));
-        let posz = pos[2];
-        let cell_idz = (&self.zpositions - posz)
-            .iter()
-            .map(|z| z.abs())
-            .collect::<Array1<f64>>()
-            .argmin()
-            .unwrap_or_else(|_| panic!("Can not find min of {:?} in Gri3D", pos));
+        // cells are equally spaced in both, the upper limit belongs to the last cell
+        let poso = (pos[1] - self.limits[1][0]) / (self.limits[1][1] - self.limits[1][0]);
+        let cell_ido = ((poso * self.cells[1] as f64) as usize).min(self.cells[1] - 1);
+        let posz = (pos[2] - self.limits[2][0]) / (self.limits[2][1] - self.limits[2][0]);
+        let cell_idz = ((posz * self.cells[2] as f64) as usize).min(self.cells[2] - 1);
         Ok([cell_idr, cell_ido, cell_idz])
     }
     #[allow(unused_variables)]
diff --git a/src/grid/vector_grid.rs b/src/grid/vector_grid.rs
index 0f3397c..f283547 100644
--- a/src/grid/vector_grid.rs
+++ b/src/grid/vector_grid.rs
@@ -36,6 +36,9 @@ impl VectorGrid {
         } else {
             // downcast a data grid to a cylindrical grid
             let cyl_pos = self.cyl_grid.to_cylindrical(pos);
+            // the velocity components refer to the axis of the cylinder
+            let center = self.cyl_grid.center();
+            let pos = [pos[0] - center[0], pos[1] - center[1], pos[2]];
             let vel_radial = (pos[0] * vel[0] + pos[1] * vel[1]) / cyl_pos[0];
             let vel_omega =
                 (pos[0] * vel[1] - pos[1] * vel[0]) / (pos[0] * pos[0] + pos[1] * pos[1]);
-- 
2.43.0


From 6cc3d66cd72f4e1e498e6c6a106298eda1a6df86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 21/55] fix: a selection of particle ids may start at id 0

---
 src/particleselector.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/particleselector.rs b/src/particleselector.rs
index 63a3543..c6db873 100644
--- a/src/particleselector.rs
+++ b/src/particleselector.rs
@@ -87,9 +87,9 @@ impl ParticleSelector {
         }
     }
     fn is_particleid_valid(&self, particleid: usize) -> bool {
-        // if first element is 0 one does not want to check this
-        // BUG Does not allow to choose particle id nr 0 as a particle.
-        if self.particleid[0] == 0 {
+        // a single 0 means one does not want to check this
+        // BUG Does not allow to choose particle id nr 0 as the only particle.
+        if self.particleid == [0] {
             return true;
         }
         if self.particleid.len() == 1 {
-- 
2.43.0


From b3391e29d544f1688dfa49b7d127471923d6e0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 22/55] fix: the mean velocity over a selection leaves out the
 particles that are not selected

---
 src/functions.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/functions.rs b/src/functions.rs
index bc8f20e..9f24f58 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -435,7 +435,15 @@ pub trait Granular: DataManager {
                 continue;
             }
             let velocities = timestep_data.velocity();
-            for vel in velocities.outer_iter() {
+            for (particle, vel) in velocities.outer_iter().enumerate() {
+                if !selector.is_valid(
+                    timestep_data.radius()[particle],
+                    timestep_data.clouds()[particle],
+                    timestep_data.density()[particle],
+                    timestep_data.particleid()[particle] as usize,
+                ) {
+                    continue;
+                }
                 let velocity = (vel[0] * vel[0] + vel[1] * vel[1] + vel[2] * vel[2]).sqrt();
                 if f64::is_nan(velocity) {
                     continue;
-- 
2.43.0


From 45f05c6f23e32c4600f3b284b2da09475cc6ba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 23/55] fix: circulation follows particles by id and works for
 populations that change

---
 src/functions/conditional.rs | 146 ++++++++++++++++++++---------------
 1 file changed, 85 insertions(+), 61 deletions(-)

diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index 2342e9e..a7e629d 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -13,12 +13,12 @@ pub trait Conditional: DataManager {
         if boundary_position > dim[[1, axis]] || boundary_position < dim[[0, axis]] {
             panic!("Boundary position is outside of the system");
         }
-        let particle_number = global_stats.nparticles();
         let timesteps: &usize = global_stats.timesteps();
         print_debug!("velocityfield: Initiation over, entering time loop");
         let mut circulation_time = Vec::<f64>::new();
-        let mut start_flag_array = Array1::<usize>::zeros(particle_number + 1);
-        let mut time_flag_array = Array1::<f64>::zeros(particle_number + 1);
+        let mut slots = std::collections::BTreeMap::<usize, usize>::new();
+        let mut start_flag_array = Vec::<usize>::new();
+        let mut time_flag_array = Vec::<f64>::new();
 
         let mut old_timestep = self.get_timestep(0).to_owned();
         for timestep in 1..*timesteps {
@@ -34,7 +34,6 @@ pub trait Conditional: DataManager {
             let positions = timestep_data.position();
             let old_positions = old_timestep.position();
             let particle_ids = timestep_data.particleid();
-            let old_particle_ids = old_timestep.particleid();
             let rad_array = timestep_data.radius();
             let clouds = timestep_data.clouds();
             let density = timestep_data.density();
@@ -57,23 +56,35 @@ pub trait Conditional: DataManager {
                     print_debug!("Particle {} is not valid", particle);
                     continue;
                 }
-                if particle_ids[particle] != old_particle_ids[particle] {
-                    print_debug!("Particle {} is not valid", particle);
-                    continue;
+                let old_row = match same_particle(&old_timestep, particle, particle_ids[particle]) {
+                    Some(row) => row,
+                    None => {
+                        print_debug!("Particle {} is new", particle);
+                        continue;
+                    }
+                };
+                // every particle keeps its own state, wherever it is stored
+                let slots_known = slots.len();
+                let slot = *slots
+                    .entry(particle_ids[particle] as usize)
+                    .or_insert(slots_known);
+                if slot >= start_flag_array.len() {
+                    start_flag_array.push(0);
+                    time_flag_array.push(0.0);
                 }
                 let pos = positions[particle];
-                let old_pos = old_positions[particle];
+                let old_pos = old_positions[old_row];
                 // check if particle crossed boundary
                 if (pos[axis] - boundary_position) * (old_pos[axis] - boundary_position) < 0.0 {
                     // check if particle is already in the list
-                    if start_flag_array[particle] == 0 {
-                        start_flag_array[particle] = 1;
-                        time_flag_array[particle] = current_time;
-                    } else if start_flag_array[particle] == 1 {
-                        start_flag_array[particle] = 2;
+                    if start_flag_array[slot] == 0 {
+                        start_flag_array[slot] = 1;
+                        time_flag_array[slot] = current_time;
+                    } else if start_flag_array[slot] == 1 {
+                        start_flag_array[slot] = 2;
                     } else {
-                        circulation_time.push(current_time - time_flag_array[particle]);
-                        start_flag_array[particle] = 0;
+                        circulation_time.push(current_time - time_flag_array[slot]);
+                        start_flag_array[slot] = 0;
                     }
                 }
             }
@@ -100,14 +111,14 @@ pub trait Conditional: DataManager {
         if boundary_position.1 > dim[[1, axis]] || boundary_position.1 < dim[[0, axis]] {
             panic!("Boundary position is outside of the system");
         }
-        let particle_number = global_stats.nparticles();
         let timesteps: &usize = global_stats.timesteps();
         print_debug!("velocityfield: Initiation over, entering time loop");
         let mut circulation_time = Vec::<(f64,f64)>::new();
-        let mut start_flag_array = Array1::<usize>::zeros(particle_number + 1);
-        let mut mid_flag_array = Array1::<usize>::zeros(particle_number + 1);
-        let mut time_flag_array = Array1::<f64>::zeros(particle_number + 1);
-        let mut mid_time_flag_array = Array1::<f64>::zeros(particle_number + 1);
+        let mut slots = std::collections::BTreeMap::<usize, usize>::new();
+        let mut start_flag_array = Vec::<usize>::new();
+        let mut mid_flag_array = Vec::<usize>::new();
+        let mut time_flag_array = Vec::<f64>::new();
+        let mut mid_time_flag_array = Vec::<f64>::new();
      
         let mut old_timestep = self.get_timestep(0).to_owned();
         let mut count = 0;
@@ -124,7 +135,6 @@ pub trait Conditional: DataManager {
             let positions = timestep_data.position();
             let old_positions = old_timestep.position();
             let particle_ids = timestep_data.particleid();
-            let old_particle_ids = old_timestep.particleid();
             let rad_array = timestep_data.radius();
             let clouds = timestep_data.clouds();
             let density = timestep_data.density();
@@ -147,25 +157,39 @@ pub trait Conditional: DataManager {
                     print_debug!("Particle {} is not valid", particle);
                     continue;
                 }
-                if particle_ids[particle] != old_particle_ids[particle] {
-                    print_debug!("Particle {} is not valid", particle);
-                    continue;
+                let old_row = match same_particle(&old_timestep, particle, particle_ids[particle]) {
+                    Some(row) => row,
+                    None => {
+                        print_debug!("Particle {} is new", particle);
+                        continue;
+                    }
+                };
+                // every particle keeps its own state, wherever it is stored
+                let slots_known = slots.len();
+                let slot = *slots
+                    .entry(particle_ids[particle] as usize)
+                    .or_insert(slots_known);
+                if slot >= start_flag_array.len() {
+                    start_flag_array.push(0);
+                    mid_flag_array.push(0);
+                    time_flag_array.push(0.0);
+                    mid_time_flag_array.push(0.0);
                 }
                 let pos = positions[particle][axis];
-                let old_pos = old_positions[particle][axis];
+                let old_pos = old_positions[old_row][axis];
                 if pos > boundary_position.1 && old_pos < boundary_position.1 {
                     count += 1;
                     //println!("particle inside upper ");
     
                     // if particle before was below
-                    if start_flag_array[particle] == 2 {
+                    if start_flag_array[slot] == 2 {
                         // say " particle was in the other region"
-                        if mid_flag_array[particle] == 0 {
-                            //down_times.push(current_time - time_flag_array[particle]);
+                        if mid_flag_array[slot] == 0 {
+                            //down_times.push(current_time - time_flag_array[slot]);
                         }
-                        mid_flag_array[particle] = 1;
-                    } else if start_flag_array[particle] == 1 && mid_flag_array[particle] == 1 {
-                        //up_times.push(current_time - mid_time_flag_array[particle]);
+                        mid_flag_array[slot] = 1;
+                    } else if start_flag_array[slot] == 1 && mid_flag_array[slot] == 1 {
+                        //up_times.push(current_time - mid_time_flag_array[slot]);
                         // One more flag to make shure up time only counted once
                     }
                 }
@@ -175,21 +199,21 @@ pub trait Conditional: DataManager {
                     //println!("particle out of upper");
                     //println!("{}->{},{},{},{}",old_pos,pos,boundary[1],boundary[0],pos  < boundary[0] && old_pos  > boundary[0]);
                     // if particle before was nowhere
-                    if start_flag_array[particle] == 0 {
+                    if start_flag_array[slot] == 0 {
                         // start clock
-                        time_flag_array[particle] = current_time;
-                        start_flag_array[particle] = 1;
-                    } else if start_flag_array[particle] == 1 && mid_flag_array[particle] == 1 {
+                        time_flag_array[slot] = current_time;
+                        start_flag_array[slot] = 1;
+                    } else if start_flag_array[slot] == 1 && mid_flag_array[slot] == 1 {
                         // end of one circulation
-                        circulation_time.push((time_flag_array[particle],current_time));
-                        //if current_time - time_flag_array[particle] <= 0.0 {println!("Out of higher")};
+                        circulation_time.push((time_flag_array[slot],current_time));
+                        //if current_time - time_flag_array[slot] <= 0.0 {println!("Out of higher")};
                         // restart the run
-                        mid_flag_array[particle] = 0;
-                        time_flag_array[particle] = current_time;
-                    } else if start_flag_array[particle] == 1 {
-                        time_flag_array[particle] = current_time;
-                    } else if start_flag_array[particle] == 2 {
-                        mid_time_flag_array[particle] = current_time;
+                        mid_flag_array[slot] = 0;
+                        time_flag_array[slot] = current_time;
+                    } else if start_flag_array[slot] == 1 {
+                        time_flag_array[slot] = current_time;
+                    } else if start_flag_array[slot] == 2 {
+                        mid_time_flag_array[slot] = current_time;
                     }
                     continue;
                 }
@@ -201,34 +225,34 @@ pub trait Conditional: DataManager {
                     //println!("particle in lower");
                     //println!("{}->{},{},{},{}",old_pos,pos,boundary[1],boundary[0],pos  < boundary[0] && old_pos  > boundary[0]);
                     // if particle before was below
-                    if start_flag_array[particle] == 1 {
+                    if start_flag_array[slot] == 1 {
                         // say " particle was in the other region"
-                        if mid_flag_array[particle] == 0 {
-                            //down_times.push(current_time - time_flag_array[particle]);
+                        if mid_flag_array[slot] == 0 {
+                            //down_times.push(current_time - time_flag_array[slot]);
                         }
-                        mid_flag_array[particle] = 1;
-                    } else if start_flag_array[particle] == 2 && mid_flag_array[particle] == 1 {
-                        //down_times.push(current_time - mid_time_flag_array[particle]);
+                        mid_flag_array[slot] = 1;
+                    } else if start_flag_array[slot] == 2 && mid_flag_array[slot] == 1 {
+                        //down_times.push(current_time - mid_time_flag_array[slot]);
                     }
                 }
                 // particle crosses out of lower border
                 else if pos > boundary_position.0 && old_pos < boundary_position.0 {
                     // if particle before was nowhere
-                    if start_flag_array[particle] == 0 {
+                    if start_flag_array[slot] == 0 {
                         // start clock
-                        time_flag_array[particle] = current_time;
-                        start_flag_array[particle] = 2;
-                    } else if start_flag_array[particle] == 2 && mid_flag_array[particle] == 1 {
+                        time_flag_array[slot] = current_time;
+                        start_flag_array[slot] = 2;
+                    } else if start_flag_array[slot] == 2 && mid_flag_array[slot] == 1 {
                         // end of one circulation
-                        circulation_time.push((time_flag_array[particle],current_time));
+                        circulation_time.push((time_flag_array[slot],current_time));
                         // restart the run
-                        //if current_time - time_flag_array[particle] <= 0.0 {println!("Out of lower")};
-                        mid_flag_array[particle] = 0;
-                        time_flag_array[particle] = current_time;
-                    } else if start_flag_array[particle] == 2 {
-                        time_flag_array[particle] = current_time;
-                    } else if start_flag_array[particle] == 1 {
-                        mid_time_flag_array[particle] = current_time;
+                        //if current_time - time_flag_array[slot] <= 0.0 {println!("Out of lower")};
+                        mid_flag_array[slot] = 0;
+                        time_flag_array[slot] = current_time;
+                    } else if start_flag_array[slot] == 2 {
+                        time_flag_array[slot] = current_time;
+                    } else if start_flag_array[slot] == 1 {
+                        mid_time_flag_array[slot] = current_time;
                     }
                 }
                 //println!("check done");
-- 
2.43.0


From 402e8d6ab717d4866d03e6defadac142c5f0778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:32 +0000
Subject: [PATCH 24/55] fix: the fitted velocity is evaluated at the sample it
 is stored with

---
 src/converter/convertertools.rs                   | 6 +++---
 src/converter/convertertools/velocity_paralell.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/converter/convertertools.rs b/src/converter/convertertools.rs
index 2bb51ac..0d9ca6e 100644
--- a/src/converter/convertertools.rs
+++ b/src/converter/convertertools.rs
@@ -170,21 +170,21 @@ pub fn velocity_polynom(
             .iter()
             .enumerate()
             .map(|(n, param)| {
-                param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
             })
             .sum();
         let vy: f64 = param_y
             .iter()
             .enumerate()
             .map(|(n, param)| {
-                param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
             })
             .sum();
         let vz: f64 = param_z
             .iter()
             .enumerate()
             .map(|(n, param)| {
-                param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
             })
             .sum();
         new_data[[id - (sampling_steps - 1) / 2, 0]] = data[[id, 0]];
diff --git a/src/converter/convertertools/velocity_paralell.rs b/src/converter/convertertools/velocity_paralell.rs
index eb6a3c9..a1216e1 100644
--- a/src/converter/convertertools/velocity_paralell.rs
+++ b/src/converter/convertertools/velocity_paralell.rs
@@ -57,21 +57,21 @@ pub fn velocity_polynom_parallel(
                 .iter()
                 .enumerate()
                 .map(|(n, param)| {
-                    param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                    param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
                 })
                 .sum();
             let vy: f64 = param_y
                 .iter()
                 .enumerate()
                 .map(|(n, param)| {
-                    param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                    param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
                 })
                 .sum();
             let vz: f64 = param_z
                 .iter()
                 .enumerate()
                 .map(|(n, param)| {
-                    param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                    param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
                 })
                 .sum();
             result_array[0] = datasegment[[(sampling_steps - 1) / 2, 0]];
-- 
2.43.0


From 3c5a758eccc2f304fdb87a19cfaf63b37c91cd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 25/55] fix: csv with ids: rows ignored for their time leave no
 zero rows behind

---
 src/converter/csv_modes/csv_multi_idline.rs | 35 ++++++++++++++-------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index 59d43c5..952cde8 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -150,9 +150,6 @@ pub fn csv_multi_idline(
         // progress bar
         println!("{:?}", data.shape());
         let data_length = data.column(0).len();
-        if data_length > timesteps {
-            timesteps = data_length;
-        }
         // Attributes
         // arrays that will be saved:
         time_array = ndarray::Array1::<f64>::zeros(data_length);
@@ -164,6 +161,7 @@ pub fn csv_multi_idline(
         let mut vel_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut pos_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut failcount = 0;
+        let mut total_failcount = 0;
         let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
 
         print_debug!("Creating a new group \"particle {}\"", p_id);
@@ -181,6 +179,7 @@ pub fn csv_multi_idline(
                 // The particle went back in time
                 // This is not possible and must be ignored.
                 failcount += 1;
+                total_failcount += 1;
                 if failcount > MAX_FAILS {
                     panic!(
                         "Maximum amount of points that are behind the current \
@@ -191,10 +190,12 @@ pub fn csv_multi_idline(
                 }
                 continue;
             }
-            time_array[line_id] = current_time;
+            // ignored lines leave no row behind
+            let row = line_id - total_failcount;
+            time_array[row] = current_time;
             // resetfailcount. we only dont allow them do be in a row!
             failcount = 0;
-            if line_id > 0 {
+            if row > 0 {
                 sample_rate = current_time - old_time;
             }
             old_time = current_time;
@@ -202,16 +203,16 @@ pub fn csv_multi_idline(
             let pos_y = line[2];
             let pos_z = line[3];
             let pos = ndarray::array![pos_x, pos_y, pos_z];
-            pos_array[[line_id, 0]] = pos_x;
-            pos_array[[line_id, 1]] = pos_y;
-            pos_array[[line_id, 2]] = pos_z;
+            pos_array[[row, 0]] = pos_x;
+            pos_array[[row, 1]] = pos_y;
+            pos_array[[row, 2]] = pos_z;
             println!("{:?}", line);
             let v_x = line[4];
             let v_y = line[5];
             let v_z = line[6];
-            vel_array[[line_id, 0]] = v_x;
-            vel_array[[line_id, 1]] = v_y;
-            vel_array[[line_id, 2]] = v_z;
+            vel_array[[row, 0]] = v_x;
+            vel_array[[row, 1]] = v_y;
+            vel_array[[row, 2]] = v_z;
             let vel: Vec<f64> = vec![v_x, v_y, v_z];
             print_debug!("Extracting statistical velocity information");
 
@@ -267,6 +268,18 @@ pub fn csv_multi_idline(
             }
         } // end filename forloop
           // write data into HDF5 file
+          // the ignored lines are missing at the end of the arrays
+        let rows = data_length - total_failcount;
+        if rows > timesteps {
+            timesteps = rows;
+        }
+        time_array = time_array.slice(ndarray::s![..rows]).to_owned();
+        let particle_id_array = particle_id_array.slice(ndarray::s![..rows]);
+        let particle_radius_array = particle_radius_array.slice(ndarray::s![..rows]);
+        let ppclouds_array = ppclouds_array.slice(ndarray::s![..rows]);
+        let particle_type_array = particle_type_array.slice(ndarray::s![..rows]);
+        let vel_array = vel_array.slice(ndarray::s![..rows, ..]);
+        let pos_array = pos_array.slice(ndarray::s![..rows, ..]);
         let builder = group.new_dataset_builder();
         builder
             .with_data(&time_array)
-- 
2.43.0


From 0fddb8a5190f09f83804cf03daad45951e525d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:46 +0000
Subject: [PATCH 26/55] fix: chained csv: store the last particle as well

---
 src/converter/csv_modes/csv_multi_chain.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index fe98020..cf10717 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -84,6 +84,10 @@ pub fn csv_multi_chain(
             }
             old_time = *time;
         }
+        // the last particle ends with the data
+        particles += 1;
+        duration.push(old_time);
+        steps_per_particle.push(data.shape()[0] - indx_start[particles - 1]);
         let max_duration = duration.iter().fold(0.0, |a, &b| if a > b { a } else { b });
         let max_steps = steps_per_particle
             .iter()
-- 
2.43.0


From cd46ff737195d6327f7f89a1dbb3997cdd40fe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:36 +0000
Subject: [PATCH 27/55] fix: chained csv: rows ignored for their time leave no
 zero rows behind

---
 src/converter/csv_modes/csv_multi_chain.rs | 33 +++++++++++++++-------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index cf10717..d7dddd5 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -181,9 +181,6 @@ pub fn csv_multi_chain(
     for (p_id, data) in particle_data.iter().enumerate() {
         // progress bar
         let data_length = data.column(0).len();
-        if data_length > timesteps {
-            timesteps = data_length;
-        }
         let bar = setup_bar!("Converting", data_length);
         // Attributes
 
@@ -196,6 +193,7 @@ pub fn csv_multi_chain(
         let mut vel_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut pos_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut failcount = 0;
+        let mut total_failcount = 0;
         let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
 
         print_debug!("Creating a new group \"particle {}\"", p_id);
@@ -213,6 +211,7 @@ pub fn csv_multi_chain(
                 // The particle went back in time
                 // This is not possible and must be ignored.
                 failcount += 1;
+                total_failcount += 1;
                 if failcount > MAX_FAILS {
                     panic!(
                         "Maximum amount of points that are behind the current \
@@ -223,7 +222,9 @@ pub fn csv_multi_chain(
                 }
                 continue;
             }
-            time_array[line_id] = current_time;
+            // ignored lines leave no row behind
+            let row = line_id - total_failcount;
+            time_array[row] = current_time;
             // resetfailcount. we only dont allow them do be in a row!
             failcount = 0;
             old_time = current_time;
@@ -231,15 +232,15 @@ pub fn csv_multi_chain(
             let pos_y = line[2];
             let pos_z = line[3];
             let pos = ndarray::array![pos_x, pos_y, pos_z];
-            pos_array[[line_id, 0]] = pos_x;
-            pos_array[[line_id, 1]] = pos_y;
-            pos_array[[line_id, 2]] = pos_z;
+            pos_array[[row, 0]] = pos_x;
+            pos_array[[row, 1]] = pos_y;
+            pos_array[[row, 2]] = pos_z;
             let v_x = line[4];
             let v_y = line[5];
             let v_z = line[6];
-            vel_array[[line_id, 0]] = v_x;
-            vel_array[[line_id, 1]] = v_y;
-            vel_array[[line_id, 2]] = v_z;
+            vel_array[[row, 0]] = v_x;
+            vel_array[[row, 1]] = v_y;
+            vel_array[[row, 2]] = v_z;
             let vel: Vec<f64> = vec![v_x, v_y, v_z];
             print_debug!("Extracting statistical velocity information");
 
@@ -295,6 +296,18 @@ pub fn csv_multi_chain(
             }
         } // end filename forloop
           // write data into HDF5 file
+          // the ignored lines are missing at the end of the arrays
+        let rows = data_length - total_failcount;
+        if rows > timesteps {
+            timesteps = rows;
+        }
+        time_array = time_array.slice(ndarray::s![..rows]).to_owned();
+        let particle_id_array = particle_id_array.slice(ndarray::s![..rows]);
+        let particle_radius_array = particle_radius_array.slice(ndarray::s![..rows]);
+        let ppclouds_array = ppclouds_array.slice(ndarray::s![..rows]);
+        let particle_type_array = particle_type_array.slice(ndarray::s![..rows]);
+        let vel_array = vel_array.slice(ndarray::s![..rows, ..]);
+        let pos_array = pos_array.slice(ndarray::s![..rows, ..]);
         let builder = group.new_dataset_builder();
         builder
             .with_data(&time_array)
-- 
2.43.0


From 8ea5b20b9520df9d27cc5bebae32f16d7c766787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:36 +0000
Subject: [PATCH 28/55] fix: chained csv: record how many particles were stored

---
 src/converter/csv_modes/csv_multi_chain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index d7dddd5..b5f782a 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -376,7 +376,7 @@ pub fn csv_multi_chain(
         .new_attr::<u64>()
         .create("particle number")
         .unwrap()
-        .write_scalar(&1_usize)
+        .write_scalar(&particle_data.len())
         .unwrap();
     hdf5file
         .new_attr::<u64>()
-- 
2.43.0


From c44609ea907aa4494271c92ccaf9a6cecb746df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:18 +0000
Subject: [PATCH 29/55] fix: chained csv: record the time range of the data

---
 src/converter/csv_modes/csv_multi_chain.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index b5f782a..585ba7b 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -283,12 +283,15 @@ pub fn csv_multi_chain(
             if pos[2] > dimensions[[1, 2]] {
                 dimensions[[1, 2]] = pos[2];
             }
+            if mean_counter == 0 || current_time < time[0] {
+                time[0] = current_time;
+            }
+            if mean_counter == 0 || current_time > time[1] {
+                time[1] = current_time;
+            }
             //step += 1;
             mean_counter += 1;
             sample_rate = current_time - old_time;
-            if current_time > time[1] {
-                time[1] = current_time;
-            }
             old_time = current_time;
             if line_id % 1000 == 0 {
                 bar.inc(1000);
-- 
2.43.0


From 3dcac71cb7efd2e62214a9b859562063781a5fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:23 +0000
Subject: [PATCH 30/55] sim: hook to compute velocities in parallel from fewer
 rows

---
 src/converter.rs                           | 21 +++++++++++++++++++++
 src/converter/csv_modes/csv_multi_chain.rs |  7 +++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index a64613c..a7193d4 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -31,6 +31,27 @@ const BLOSC_SHUFFLE: bool = true;
 const BLOSC_COMPRESSION: u8 = 9;
 // Chunk size for blosc filter
 
+/// Number of rows from which velocities are computed in parallel, given the
+/// built-in `default`.
+///
+/// Simulation builds (`--cfg up4_sim`, off by default) may lower it, so that a
+/// short track takes that path.
+#[inline]
+fn parallel_rows(default: usize) -> usize {
+    #[cfg(up4_sim)]
+    {
+        let rows = SIM_PARALLEL_ROWS.load(std::sync::atomic::Ordering::SeqCst);
+        if rows > 0 {
+            return rows;
+        }
+    }
+    default
+}
+
+/// Parallel from this number of rows in simulation builds, zero keeps the built-in number.
+#[cfg(up4_sim)]
+pub static SIM_PARALLEL_ROWS: std::sync::atomic::AtomicUsize =
+    std::sync::atomic::AtomicUsize::new(0);
 
 /// Convert a single trajectory csv file to Hdf5
 // The number of arguments is necessary for proper csv reading.
diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 585ba7b..0966b7b 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -1,7 +1,10 @@
 // use indicatif::{ProgressBar, ProgressStyle, ProgressState};
 use crate::{
     check_signals,
-    converter::convertertools::{make_sortlist, sort_by_array},
+    converter::{
+        convertertools::{make_sortlist, sort_by_array},
+        parallel_rows,
+    },
     print_debug, print_warning, setup_bar,
 };
 use csv;
@@ -140,7 +143,7 @@ pub fn csv_multi_chain(
                         time, x, y, z -position "
                     )
                 }
-                if temp_data.column(0).len() < 200000 {
+                if temp_data.column(0).len() < parallel_rows(200000) {
                     temp_data = convertertools::velocity_polynom(temp_data, 9, 2);
                 } else {
                     temp_data = convertertools::velocity_paralell::velocity_polynom_parallel(
-- 
2.43.0


From dc144975cf934d2037a839db9c122ff8b7b376b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:23 +0000
Subject: [PATCH 31/55] fix: interpolation: the last timestep lies at the end
 of the duration

---
 src/converter/convertertools.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/converter/convertertools.rs b/src/converter/convertertools.rs
index 0d9ca6e..884bbe0 100644
--- a/src/converter/convertertools.rs
+++ b/src/converter/convertertools.rs
@@ -29,7 +29,8 @@ pub fn interpolate(
 
     let maxtime = max_time;
     let timesteps = steps;
-    let dt = maxtime / timesteps as f64;
+    // the last timestep lies at the end of the duration
+    let dt = maxtime / (timesteps - 1) as f64;
     // First timestep:
     let mut interp_data = ndarray::Array2::<f64>::zeros((steps, 4));
     // first timestep:
-- 
2.43.0


From 99338df061eb7a1be5807a6ac56601b6312b88f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:23 +0000
Subject: [PATCH 32/55] fix: interpolation starts at the first time of the
 track

---
 src/converter/convertertools.rs             | 2 +-
 src/converter/csv_modes/csv_multi_chain.rs  | 6 +++---
 src/converter/csv_modes/csv_multi_idline.rs | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/converter/convertertools.rs b/src/converter/convertertools.rs
index 884bbe0..c5e3b8c 100644
--- a/src/converter/convertertools.rs
+++ b/src/converter/convertertools.rs
@@ -46,7 +46,7 @@ pub fn interpolate(
     // loop over whole dataset and figure out the location at each timestep
     let mut real_step = 1;
     for step in 1..timesteps - 1 {
-        let time_new = step as f64 * dt;
+        let time_new = time[0] + step as f64 * dt;
         // find the next indx in the real data which may be the old one
         real_step = {
             // if the temporal distance between new time and old time is smaller
diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 0966b7b..d3fec1d 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -74,14 +74,14 @@ pub fn csv_multi_chain(
         let mut particles = 0;
         let mut indx_start = vec![0];
         let mut duration = vec![];
-        let mut start_time = vec![0.0];
+        let mut start_time = vec![data[[0, 0]]];
         let mut steps_per_particle = vec![];
         // Find particle indexis by checking if the time is reseted
         for (i, time) in data.slice(ndarray::s![.., 0]).iter().enumerate() {
             if i > 0 && time < &old_time {
                 indx_start.push(i);
                 particles += 1;
-                duration.push(old_time);
+                duration.push(old_time - start_time[particles - 1]);
                 start_time.push(*time);
                 steps_per_particle.push(i - indx_start[particles - 1]);
             }
@@ -89,7 +89,7 @@ pub fn csv_multi_chain(
         }
         // the last particle ends with the data
         particles += 1;
-        duration.push(old_time);
+        duration.push(old_time - start_time[particles - 1]);
         steps_per_particle.push(data.shape()[0] - indx_start[particles - 1]);
         let max_duration = duration.iter().fold(0.0, |a, &b| if a > b { a } else { b });
         let max_steps = steps_per_particle
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index 952cde8..ddec92c 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -438,7 +438,7 @@ fn sort_by_id(data: ndarray::Array2<f64>) -> (Vec<ndarray::Array2<f64>>, f64, us
             .collect::<Vec<(usize, usize)>>();
         ids_and_steps.sort_by(|a, b| a.0.cmp(&b.0));
 
-        (ids_and_steps, min_id, max_id, max_steps, max_t)
+        (ids_and_steps, min_id, max_id, max_steps, max_t - min_t)
     };
     // make array
     for (id, steps) in ids.iter() {
-- 
2.43.0


From 9d81a132da500d1362e5bfd1f52bda3c099c954a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:23 +0000
Subject: [PATCH 33/55] fix: interpolation keeps up with samples denser than
 its timesteps

---
 src/converter/convertertools.rs | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/converter/convertertools.rs b/src/converter/convertertools.rs
index c5e3b8c..600787d 100644
--- a/src/converter/convertertools.rs
+++ b/src/converter/convertertools.rs
@@ -52,31 +52,22 @@ pub fn interpolate(
             // if the temporal distance between new time and old time is smaller
             // then distance between new time and next time return old timestep
             print_debug!("Real_step:{} time_len {}", real_step, time.len());
-            if real_step < time.len() - 1 {
+            // a step may be longer than many of the recorded ones
+            while real_step + 2 < time.len() {
                 let old_time = time[real_step];
                 let new_time = time[real_step + 1];
                 print_debug!("Old time: {} New time: {}", old_time, new_time);
-                if new_time < old_time {
-                    real_step += 1;
-                } else if (time_new - old_time).abs() < (time_new - new_time).abs() {
-                } else {
-                    real_step += 1;
-                    if real_step < time.len() - 1 {
-                        let old_time = time[real_step];
-                        let new_time = time[real_step + 1];
-
-                        if (time_new - old_time).abs() < (time_new - new_time).abs() {
-                        } else {
-                            real_step += 1;
-                        }
-                    }
+                if (time_new - old_time).abs() < (time_new - new_time).abs() {
+                    break;
                 }
+                real_step += 1;
             }
             real_step
         };
         print_debug!("Interpolate:  step: {}, real_step: {}, time_new: {}, time[real_step]: {}, time[real_step+1]: {}", step, real_step, time_new, time[real_step], time[real_step+1]);
 
-        if real_step >= data.shape()[0] - 1 {
+        // there is no position after the end of the recorded track
+        if real_step >= data.shape()[0] - 1 || time_new > time[time.len() - 1] {
             interp_data[[step, 0]] = time_new;
             interp_data[[step, 1]] = f64::NAN;
             interp_data[[step, 2]] = f64::NAN;
-- 
2.43.0


From 1d40809af1bae89e5a0dcb8457c75586fceb632e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:23 +0000
Subject: [PATCH 34/55] fix: parallel velocities: windows of the asked size,
 signals checked by the calling thread

---
 .../convertertools/velocity_paralell.rs       | 25 ++++++++-----------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/converter/convertertools/velocity_paralell.rs b/src/converter/convertertools/velocity_paralell.rs
index a1216e1..fc08017 100644
--- a/src/converter/convertertools/velocity_paralell.rs
+++ b/src/converter/convertertools/velocity_paralell.rs
@@ -18,20 +18,19 @@ pub fn velocity_polynom_parallel(
         )
     }
     //let bar = setup_bar!("Velocity Calc", data.column(0).len());
+    // one window of sampling_steps lines around every line
     let x: Vec<ndarray::Array2<f64>> = data
-        .windows((7, 7))
+        .windows((sampling_steps, data.ncols()))
         .into_iter()
-        .map(|x| {
-            println!("{:?}", x);
-            x.to_owned().into_shape((7, 7)).unwrap()
-        })
+        .map(|x| x.to_owned())
         .collect();
 
     println!("x.shape(): {:?}", x.len());
-    let new_data: Vec<ndarray::Array1<f64>> = x
-        .par_iter()
-        .enumerate()
-        .map(|(id, datasegment)| {
+    let mut new_data: Vec<ndarray::Array1<f64>> = Vec::with_capacity(x.len());
+    for block in x.chunks(10000) {
+        // signals can only be checked by the calling thread, it holds the GIL
+        check_signals!();
+        new_data.par_extend(block.par_iter().map(|datasegment| {
             let mut result_array = ndarray::Array1::<f64>::zeros(7);
             //let datasegment = data.slice(ndarray::s![
             //   id - (sampling_steps - 1) / 2..id + (sampling_steps - 1) / 2,
@@ -84,13 +83,9 @@ pub fn velocity_polynom_parallel(
 
             print_debug!("{},{},{}", vx, vy, vz);
             print_debug!("{:?},{:?},{:?}", param_x, param_y, param_z);
-            if id % 10000 == 0 {
-                //bar.inc(10000);
-                check_signals!();
-            }
             result_array
-        })
-        .collect(); // End loop over dataset
+        }));
+    } // End loop over dataset
 
     //bar.finish();
     to_array2(new_data)
-- 
2.43.0


From 1689774a91bcd1b920444381c246ab673be287f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:23 +0000
Subject: [PATCH 35/55] fix: converters: store the sample rate as it is, not
 cut to an integer

---
 src/converter.rs                                    | 6 +++---
 src/converter/csv_modes/csv_multi_chain.rs          | 7 ++++---
 src/converter/csv_modes/csv_multi_file_time_step.rs | 2 +-
 src/converter/csv_modes/csv_multi_idline.rs         | 2 +-
 4 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index a7193d4..7a2af38 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -377,7 +377,7 @@ pub fn csv_converter(
         .write_scalar(&timesteps)
         .unwrap();
     hdf5file
-        .new_attr::<u64>()
+        .new_attr::<f64>()
         .create("sample rate")
         .unwrap()
         .write_scalar(&sample_rate)
@@ -859,7 +859,7 @@ impl XMLVTKConverter {
             .write_scalar(&timesteps)
             .unwrap();
         output_file
-            .new_attr::<u64>()
+            .new_attr::<f64>()
             .create("sample rate")
             .unwrap()
             .write_scalar(&sample_rate)
@@ -1289,7 +1289,7 @@ impl LegacyVTKConverter {
             .write_scalar(&timesteps)
             .unwrap();
         output_file
-            .new_attr::<u64>()
+            .new_attr::<f64>()
             .create("sample rate")
             .unwrap()
             .write_scalar(&sample_rate)
diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index d3fec1d..94aac6a 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -230,6 +230,9 @@ pub fn csv_multi_chain(
             time_array[row] = current_time;
             // resetfailcount. we only dont allow them do be in a row!
             failcount = 0;
+            if row > 0 {
+                sample_rate = current_time - old_time;
+            }
             old_time = current_time;
             let pos_x = line[1];
             let pos_y = line[2];
@@ -294,8 +297,6 @@ pub fn csv_multi_chain(
             }
             //step += 1;
             mean_counter += 1;
-            sample_rate = current_time - old_time;
-            old_time = current_time;
             if line_id % 1000 == 0 {
                 bar.inc(1000);
                 check_signals!();
@@ -391,7 +392,7 @@ pub fn csv_multi_chain(
         .write_scalar(&timesteps)
         .unwrap();
     hdf5file
-        .new_attr::<u64>()
+        .new_attr::<f64>()
         .create("sample rate")
         .unwrap()
         .write_scalar(&sample_rate)
diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index 371ff34..6aac3ca 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -242,7 +242,7 @@ pub fn csv_multi_file_time_step(
         .write_scalar(&timesteps)
         .unwrap();
     hdf5file
-        .new_attr::<u64>()
+        .new_attr::<f64>()
         .create("sample rate")
         .unwrap()
         .write_scalar(&sample_rate)
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index ddec92c..f5ed2b0 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -357,7 +357,7 @@ pub fn csv_multi_idline(
         .write_scalar(&timesteps)
         .unwrap();
     hdf5file
-        .new_attr::<u64>()
+        .new_attr::<f64>()
         .create("sample rate")
         .unwrap()
         .write_scalar(&sample_rate)
-- 
2.43.0


From 14284d2d680429c00e403fbe71c2eb0871f2e7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:23 +0000
Subject: [PATCH 36/55] fix: cylindrical grid: slice takes the ring that
 contains the position, upper limits included

---
 src/grid/cylindrical_grid.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index cc55525..b26a907 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -373,9 +373,21 @@ impl GridFunctions3D for CylindricalGrid3D {
 
     fn slice(&self, axis: usize, position: f64) -> Array2<f64> {
         // find the length of theplane in each direction with triangulation
-        let cell_id = ((position - self.limits[axis][0])
+        let mut cell_id = ((position - self.limits[axis][0])
             / (self.limits[axis][1] - self.limits[axis][0])
             * self.cells[axis] as f64) as usize;
+        if axis == 0 {
+            // the rings are not equally wide
+            cell_id = self
+                .rpositions
+                .iter()
+                .filter(|ring| position >= ring[1])
+                .count();
+        }
+        if position == self.limits[axis][1] {
+            // the upper limit belongs to the last cell
+            cell_id = self.cells[axis] - 1;
+        }
 
         if axis == 0 {
             self.data.slice(s![cell_id, .., ..]).to_owned()
-- 
2.43.0


From 65c517db7a22191f1811b740c5966ab0dd59b039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:23 +0000
Subject: [PATCH 37/55] fix: outlier removal: cells at the lower end of a grid
 have no neighbours below

---
 src/grid/cartesian_grid.rs   | 44 ++++++++++++++++++++----------------
 src/grid/cylindrical_grid.rs | 44 ++++++++++++++++++++----------------
 2 files changed, 50 insertions(+), 38 deletions(-)

diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index ce2b540..df09724 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -505,31 +505,37 @@ impl GridFunctions3D for CartesianGrid3D {
                     // now check every surrounding index, only one cell away from idx
                     // 26 idx must be checked
                     // yes.. i know what you are thinking
+                    // at the lower end there is no cell below, the index is outside of the grid
+                    let low = (
+                        idx.0.wrapping_sub(1),
+                        idx.1.wrapping_sub(1),
+                        idx.2.wrapping_sub(1),
+                    );
                     let indexes = [
-                        (idx.0 - 1, idx.1 - 1, idx.2 - 1),
-                        (idx.0 - 1, idx.1 - 1, idx.2),
-                        (idx.0 - 1, idx.1 - 1, idx.2 + 1),
-                        (idx.0 - 1, idx.1, idx.2 - 1),
-                        (idx.0 - 1, idx.1, idx.2),
-                        (idx.0 - 1, idx.1, idx.2 + 1),
-                        (idx.0 - 1, idx.1 + 1, idx.2 - 1),
-                        (idx.0 - 1, idx.1 + 1, idx.2),
-                        (idx.0 - 1, idx.1 + 1, idx.2 + 1),
-                        (idx.0, idx.1 - 1, idx.2 - 1),
-                        (idx.0, idx.1 - 1, idx.2),
-                        (idx.0, idx.1 - 1, idx.2 + 1),
-                        (idx.0, idx.1, idx.2 - 1),
+                        (low.0, low.1, low.2),
+                        (low.0, low.1, idx.2),
+                        (low.0, low.1, idx.2 + 1),
+                        (low.0, idx.1, low.2),
+                        (low.0, idx.1, idx.2),
+                        (low.0, idx.1, idx.2 + 1),
+                        (low.0, idx.1 + 1, low.2),
+                        (low.0, idx.1 + 1, idx.2),
+                        (low.0, idx.1 + 1, idx.2 + 1),
+                        (idx.0, low.1, low.2),
+                        (idx.0, low.1, idx.2),
+                        (idx.0, low.1, idx.2 + 1),
+                        (idx.0, idx.1, low.2),
                         (idx.0, idx.1, idx.2 + 1),
-                        (idx.0, idx.1 + 1, idx.2 - 1),
+                        (idx.0, idx.1 + 1, low.2),
                         (idx.0, idx.1 + 1, idx.2),
                         (idx.0, idx.1 + 1, idx.2 + 1),
-                        (idx.0 + 1, idx.1 - 1, idx.2 - 1),
-                        (idx.0 + 1, idx.1 - 1, idx.2),
-                        (idx.0 + 1, idx.1 - 1, idx.2 + 1),
-                        (idx.0 + 1, idx.1, idx.2 - 1),
+                        (idx.0 + 1, low.1, low.2),
+                        (idx.0 + 1, low.1, idx.2),
+                        (idx.0 + 1, low.1, idx.2 + 1),
+                        (idx.0 + 1, idx.1, low.2),
                         (idx.0 + 1, idx.1, idx.2),
                         (idx.0 + 1, idx.1, idx.2 + 1),
-                        (idx.0 + 1, idx.1 + 1, idx.2 - 1),
+                        (idx.0 + 1, idx.1 + 1, low.2),
                         (idx.0 + 1, idx.1 + 1, idx.2),
                         (idx.0 + 1, idx.1 + 1, idx.2 + 1),
                     ];
diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index b26a907..45dd756 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -474,31 +474,37 @@ impl GridFunctions3D for CylindricalGrid3D {
                     let mut counter_sum: f64 = 0.;
                     // now check every surrounding index, only one cell away from idx
                     // 26 idx must be checked
+                    // at the lower end there is no cell below, the index is outside of the grid
+                    let low = (
+                        idx.0.wrapping_sub(1),
+                        idx.1.wrapping_sub(1),
+                        idx.2.wrapping_sub(1),
+                    );
                     let indexes = [
-                        (idx.0 - 1, idx.1 - 1, idx.2 - 1),
-                        (idx.0 - 1, idx.1 - 1, idx.2),
-                        (idx.0 - 1, idx.1 - 1, idx.2 + 1),
-                        (idx.0 - 1, idx.1, idx.2 - 1),
-                        (idx.0 - 1, idx.1, idx.2),
-                        (idx.0 - 1, idx.1, idx.2 + 1),
-                        (idx.0 - 1, idx.1 + 1, idx.2 - 1),
-                        (idx.0 - 1, idx.1 + 1, idx.2),
-                        (idx.0 - 1, idx.1 + 1, idx.2 + 1),
-                        (idx.0, idx.1 - 1, idx.2 - 1),
-                        (idx.0, idx.1 - 1, idx.2),
-                        (idx.0, idx.1 - 1, idx.2 + 1),
-                        (idx.0, idx.1, idx.2 - 1),
+                        (low.0, low.1, low.2),
+                        (low.0, low.1, idx.2),
+                        (low.0, low.1, idx.2 + 1),
+                        (low.0, idx.1, low.2),
+                        (low.0, idx.1, idx.2),
+                        (low.0, idx.1, idx.2 + 1),
+                        (low.0, idx.1 + 1, low.2),
+                        (low.0, idx.1 + 1, idx.2),
+                        (low.0, idx.1 + 1, idx.2 + 1),
+                        (idx.0, low.1, low.2),
+                        (idx.0, low.1, idx.2),
+                        (idx.0, low.1, idx.2 + 1),
+                        (idx.0, idx.1, low.2),
                         (idx.0, idx.1, idx.2 + 1),
-                        (idx.0, idx.1 + 1, idx.2 - 1),
+                        (idx.0, idx.1 + 1, low.2),
                         (idx.0, idx.1 + 1, idx.2),
                         (idx.0, idx.1 + 1, idx.2 + 1),
-                        (idx.0 + 1, idx.1 - 1, idx.2 - 1),
-                        (idx.0 + 1, idx.1 - 1, idx.2),
-                        (idx.0 + 1, idx.1 - 1, idx.2 + 1),
-                        (idx.0 + 1, idx.1, idx.2 - 1),
+                        (idx.0 + 1, low.1, low.2),
+                        (idx.0 + 1, low.1, idx.2),
+                        (idx.0 + 1, low.1, idx.2 + 1),
+                        (idx.0 + 1, idx.1, low.2),
                         (idx.0 + 1, idx.1, idx.2),
                         (idx.0 + 1, idx.1, idx.2 + 1),
-                        (idx.0 + 1, idx.1 + 1, idx.2 - 1),
+                        (idx.0 + 1, idx.1 + 1, low.2),
                         (idx.0 + 1, idx.1 + 1, idx.2),
                         (idx.0 + 1, idx.1 + 1, idx.2 + 1),
                     ];
-- 
2.43.0


From 58fb95989bbac16215878a8ab2e47e386e59c7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:07 +0000
Subject: [PATCH 38/55] sim: hook, simulation builds can take the Python layer
 in (--cfg up4_sim_python, off by default)

---
 src/lib.rs   | 7 ++++---
 src/pylib.rs | 3 +++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 274e370..fbcb1e0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -39,15 +39,16 @@ mod functions;
 // optionals permitted in Python, and 'py lifetimes need to be
 // sprinkled around in this module or Bad Things Will Happen (tm)
 // `up4_sim` (off by default) leaves the Python and plotting layers out of the
-// simulation build, which has no interpreter and no plotting backend.
-#[cfg(not(up4_sim))]
+// simulation build, which has no plotting backend; `up4_sim_python` (off by
+// default) takes the Python layer in again, without its plots.
+#[cfg(any(not(up4_sim), up4_sim_python))]
 #[allow(clippy::too_many_arguments, clippy::needless_lifetimes)]
 pub mod pylib;
 #[cfg(not(up4_sim))]
 pub mod plotting;
 #[cfg(not(up4_sim))]
 pub use plotting::*;
-#[cfg(not(up4_sim))]
+#[cfg(any(not(up4_sim), up4_sim_python))]
 pub use pylib::*;
 
 pub mod types;
diff --git a/src/pylib.rs b/src/pylib.rs
index 03afd11..f9df3e6 100644
--- a/src/pylib.rs
+++ b/src/pylib.rs
@@ -12,11 +12,13 @@ use numpy::{IntoPyArray, PyArray2};
 pub mod libcomp;
 pub mod libconv;
 pub mod libgrid;
+#[cfg(not(up4_sim))]
 pub mod libplot;
 use crate::datamanager::{Manager, PData, TData};
 
 use libconv::*;
 use libgrid::*;
+#[cfg(not(up4_sim))]
 use libplot::*;
 
 
@@ -942,6 +944,7 @@ fn upppp_rust(_py: Python, m: &PyModule) -> PyResult<()> {
     m.add_class::<PyData>()?;
     m.add_class::<PyGrid>()?;
     m.add_class::<PyConverter>()?;
+    #[cfg(not(up4_sim))]
     m.add_class::<PyPlotter2D>()?;
     m.add_class::<PyVecGrid>()?;
     Ok(())
-- 
2.43.0


From ecdc5adb40d1aa223f75e429befa31e42d7ba59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:07 +0000
Subject: [PATCH 39/55] fix: mean_velocity only takes what its selection admits

---
 src/functions.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/functions.rs b/src/functions.rs
index 9f24f58..2e0ffbc 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -642,9 +642,8 @@ pub trait Granular: DataManager {
     ///’’’
     ///mean_velocity = data.mean_velocity(particleselector)
     ///'''
-    fn mean_velocity(&mut self, _selector: &ParticleSelector) -> f64 {
-        let global_stats = self.global_stats();
-        global_stats.velocity_mag()[1]
+    fn mean_velocity(&mut self, selector: &ParticleSelector) -> f64 {
+        self.mean_velocity_showcase(selector)
     } //end mean velocity
 
     /// Calculate a histogram of a specific property in a region of the system.
-- 
2.43.0


From 15a4f541f14be84c619d1e65829b839fd3e95e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:07 +0000
Subject: [PATCH 40/55] fix: a grid may have limits below zero

---
 up4/grid.py | 31 ++++++++-----------------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/up4/grid.py b/up4/grid.py
index 29bd6f8..201c605 100644
--- a/up4/grid.py
+++ b/up4/grid.py
@@ -150,11 +150,7 @@ class Grid(RustGrid):
 
             # data is given and cell size is given
             elif data is not None and limits is not None:
-                # BUG limits can be negative. nobody say they cant
-                if not any(i < 0 for i in limits):
-                    return self.cartesian3d(np.asarray(num_cells), np.asarray(limits))
-                else:
-                    raise ValueError("limits must be positive")
+                return self.cartesian3d(np.asarray(num_cells), np.asarray(limits))
             # data is given and at least one of xlim,ylim,zlim is not none
             elif data is not None and (
                 xlim is not None or ylim is not None or zlim is not None
@@ -176,12 +172,7 @@ class Grid(RustGrid):
                 )
             elif data is None:
                 if limits is not None:
-                    if not any(i < 0 for i in limits):
-                        return self.cartesian3d(
-                            np.asarray(num_cells), np.asarray(limits)
-                        )
-                    else:
-                        raise ValueError("limits must be positive")
+                    return self.cartesian3d(np.asarray(num_cells), np.asarray(limits))
                 elif xlim is not None and ylim is not None and zlim is not None:
                     dim = [xlim[0], xlim[1], ylim[0], ylim[1], zlim[0], zlim[1]]
                     return self.cartesian3d(np.asarray(num_cells), np.asarray(dim))
@@ -206,12 +197,9 @@ class Grid(RustGrid):
 
             # data is given and cell size is given
             elif data is not None and limits is not None:
-                if not any(i < 0 for i in limits):
-                    return self.cylindrical3d(
-                        np.asarray(num_cells, dtype=np.int64), np.asarray(limits)
-                    )
-                else:
-                    raise ValueError("limits must be positive")
+                return self.cylindrical3d(
+                    np.asarray(num_cells, dtype=np.int64), np.asarray(limits)
+                )
             # data is given and at least one of xlim,ylim,zlim is not none
             elif data is not None and (
                 xlim is not None or ylim is not None or zlim is not None
@@ -233,12 +221,9 @@ class Grid(RustGrid):
                 )
             elif data is None:
                 if limits is not None:
-                    if not any(i < 0 for i in limits):
-                        return self.cylindrical3d(
-                            np.asarray(num_cells, dtype=np.int64), np.asarray(limits)
-                        )
-                    else:
-                        raise ValueError("limits must be positive")
+                    return self.cylindrical3d(
+                        np.asarray(num_cells, dtype=np.int64), np.asarray(limits)
+                    )
                 elif xlim is not None and ylim is not None and zlim is not None:
                     dim = [xlim[0], xlim[1], ylim[0], ylim[1], zlim[0], zlim[1]]
                     return self.cylindrical3d(
-- 
2.43.0


From 1a56dca35cd01735de3ff9fbb52fe1a246e329ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:28 +0000
Subject: [PATCH 41/55] fix: cells of a given size are counted within the
 limits of the grid

---
 up4/grid.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/up4/grid.py b/up4/grid.py
index 201c605..99701e0 100644
--- a/up4/grid.py
+++ b/up4/grid.py
@@ -14,7 +14,13 @@ from upppp_rust import Data
 
 
 def calc_num_cells(cell_size, data, limits, xlim, ylim, zlim):
-    if data is not None:
+    # limits decide where the grid is, with or without data
+    if limits is not None:
+        num_cells = np.zeros(3)
+        for i in range(3):
+            num_cells[i] = int((limits[2 * i + 1] - limits[2 * i]) / cell_size[i])
+        return np.array(num_cells, dtype=np.int64)
+    elif data is not None:
         xmin, ymin, zmin = data.min_position()
         xmax, ymax, zmax = data.max_position()
         if xlim is not None:
@@ -31,12 +37,6 @@ def calc_num_cells(cell_size, data, limits, xlim, ylim, zlim):
         for i in range(3):
             num_cells[i] = int((dim[2 * i + 1] - dim[2 * i]) / cell_size[i])
         return num_cells
-    elif limits is not None:
-        num_cells = np.zeros(3)
-        for i in range(3):
-            num_cells[i] = int((limits[2 * i + 1] - limits[2 * i]) / cell_size[i])
-        return np.array(num_cells, dtype=np.int64)
-
     elif xlim is not None and ylim is not None and zlim is not None:
         num_cells = [
             (xlim[1] - xlim[0]) / cell_size[0],
-- 
2.43.0


From 72f084a26b9104671353101f414ce2fea61a91c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:15 +0000
Subject: [PATCH 42/55] fix: slices of Data with any step hold the timesteps a
 sequence would

---
 src/pylib.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/pylib.rs b/src/pylib.rs
index f9df3e6..70a64be 100644
--- a/src/pylib.rs
+++ b/src/pylib.rs
@@ -895,16 +895,12 @@ impl PyData {
             // next: SLICE
         },
         SliceIntOrVec::Slice(slice) =>{
-            let indices = slice.indices(*self.data.global_stats().timesteps() as i64).expect(
-                "Could not get indices"
-            );
-            let start = indices.start;
-            let stop = indices.stop;
-            let step = indices.step;
+            let indices = slice.indices(*self.data.global_stats().timesteps() as i64)?;
             let mut result = ndarray::Array3::<f64>::zeros(
-                [((stop - start) / step) as usize, *self.data.global_stats().nparticles(), 7]
+                [indices.slicelength as usize, *self.data.global_stats().nparticles(), 7]
             );
-            for (i, index) in (start..stop).step_by(step as usize).enumerate() {
+            for i in 0..indices.slicelength as usize {
+                let index = indices.start + i as isize * indices.step;
                 let timestep = self.data.get_timestep(index as usize);
                 // make it an array
                 let position = timestep.position().to_owned();
-- 
2.43.0


From 97e2aa05f7ab299b1fcfc0cadc635083437e7e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:15 +0000
Subject: [PATCH 43/55] fix: an index outside of Data is an IndexError, which
 ends an iteration

---
 src/pylib.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/pylib.rs b/src/pylib.rs
index 70a64be..32bb2a1 100644
--- a/src/pylib.rs
+++ b/src/pylib.rs
@@ -829,14 +829,9 @@ impl PyData {
     fn __getitem__(&mut self, idx: SliceIntOrVec, py: Python) -> PyResult<PyObject> {
         match idx{
             SliceIntOrVec::Int(index) =>{
-            let _idx;
-            if index < 0 {
-                _idx = *self.data.global_stats().timesteps() as isize + index;
-            } else {
-                _idx = index;
-            }
             // Single index
-            let timestep = self.data.get_timestep(_idx as usize);
+            let _idx = self.timestep_index(index)?;
+            let timestep = self.data.get_timestep(_idx);
             // make it an array
             let position = timestep.position().to_owned();
             let velocity = timestep.velocity().to_owned();
@@ -867,13 +862,8 @@ impl PyData {
                 [indices.len(), *self.data.global_stats().nparticles(), 7]
             );
             for (i, index) in indices.iter().enumerate() {
-                let  _idx;
-                if index < &0 {
-                    _idx = *self.data.global_stats().timesteps() as isize + index;
-                } else {
-                    _idx = *index;
-                }
-                let timestep = self.data.get_timestep(_idx as usize);
+                let _idx = self.timestep_index(*index)?;
+                let timestep = self.data.get_timestep(_idx);
                 // make it an array
                 let position = timestep.position().to_owned();
                 let velocity = timestep.velocity().to_owned();
@@ -932,6 +922,18 @@ impl PyData {
 
 }
 
+impl PyData {
+    /// The timestep an index means: negative ones count from the end.
+    fn timestep_index(&self, index: isize) -> PyResult<usize> {
+        let timesteps = *self.data.global_stats().timesteps() as isize;
+        let timestep = if index < 0 { timesteps + index } else { index };
+        if timestep < 0 || timestep >= timesteps {
+            return Err(pyo3::exceptions::PyIndexError::new_err("timestep index out of range"));
+        }
+        Ok(timestep as usize)
+    }
+}
+
 /// A Python module implemented in Rust. The name of this function must match
 /// the `lib.name` setting in the `Cargo.toml`, else Python will not be able to
 /// import the module.
-- 
2.43.0


From 2994202991ca698333058bfcbde7194d0ded8911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:43 +0000
Subject: [PATCH 44/55] fix: csv_multi: defaults are the characters and the
 method themselves, without quotes

---
 src/pylib/libconv.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pylib/libconv.rs b/src/pylib/libconv.rs
index 291c5d8..d9848ec 100644
--- a/src/pylib/libconv.rs
+++ b/src/pylib/libconv.rs
@@ -454,20 +454,20 @@ impl PyConverter {
     ///         their time column. The `columns` argument must contain the
     ///         id column as the first element.
     ///
-    ///     , by default chain
+    ///     , by default id_line
     ///
     //#[allow(unreachable_code, unused_variables)]
     #[pyo3(signature = (
         filename,
         outname,
         columns = vec![0,1,2,3],
-        delimiter = "\",\"",
+        delimiter = ",",
         header = true,
-        comment = "\"#\"",
+        comment = "#",
         vel = false,
         interpolate = false,
         radius = 0.0,
-        method = "\"id_line\""
+        method = "id_line"
     ))]
     #[staticmethod]
     fn csv_multi(
-- 
2.43.0


From fae39c6d2059518ac3af2e2405408232403f677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:43 +0000
Subject: [PATCH 45/55] fix: a filter that names no VTK extension is refused
 instead of converting nothing

---
 src/pylib/libconv.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pylib/libconv.rs b/src/pylib/libconv.rs
index d9848ec..3ad2183 100644
--- a/src/pylib/libconv.rs
+++ b/src/pylib/libconv.rs
@@ -168,6 +168,8 @@ impl PyConverter {
                     converter.write_hdf5_from_files(filenames, timestep, outname, filter);
                 }
             }
+        } else {
+            panic!("The filter {} names none of the extensions .vtk, .vtu and .vtp!", filter);
         }
     }
 
@@ -317,6 +319,8 @@ impl PyConverter {
                     converter.write_hdf5_from_folder(folder, timestep, outname, filter);
                 }
             }
+        } else {
+            panic!("The filter {} names none of the extensions .vtk, .vtu and .vtp!", filter);
         }
     }
 
-- 
2.43.0


From c70ae60619da7457536636bcfb16e6bcc01b6a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:40 +0000
Subject: [PATCH 46/55] fix: XML VTK converter: a folder's .vtp and .vtu files
 are converted, not only .vtk

---
 src/converter.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/converter.rs b/src/converter.rs
index 7a2af38..bcb6431 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -567,10 +567,16 @@ impl XMLVTKConverter {
             .unwrap_or_else(|_| {
                 panic!("Unable to convert files in directory {}", system_foldername)
             });
+        let extension = match self.file_type {
+            VTKType::PolyData => ".vtp",
+            VTKType::UnstructuredGrid => ".vtu",
+        };
         let mut out_vec: Vec<&str> = Vec::new();
         for filename_ in filenames.iter() {
             let filename = filename_.to_str().unwrap();
-            if filename.ends_with(".vtk") && !filename.contains("boundingBox") {
+            if (filename.ends_with(".vtk") || filename.ends_with(extension))
+                && !filename.contains("boundingBox")
+            {
                 print_debug!("\t Found file: {}", filename);
             } else {
                 print_debug!("\t Ignoring file: {}", filename);
-- 
2.43.0


From f040e4627aaca15546b1581c5e6b2f3475eefe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:40 +0000
Subject: [PATCH 47/55] fix: csv_multi_converter: an unknown mode is refused
 instead of converting nothing

---
 src/converter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/converter.rs b/src/converter.rs
index bcb6431..d7270d2 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -460,7 +460,7 @@ pub fn csv_multi_converter(
             radius,
         );
     } else {
-        println!("Mode not recognized! Please use \"chain\" or \"id_line\".");
+        panic!("Mode not recognized! Please use \"chain\" or \"id_line\".");
     };
 }
 
-- 
2.43.0


From 1ca2c3f926f03e112813355e1a91c742f5ff6c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:12 +0000
Subject: [PATCH 48/55] sim: hook, up4_sim_python builds the plots as well

---
 src/lib.rs   | 7 +++----
 src/pylib.rs | 3 ---
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fbcb1e0..d15f7fb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -39,14 +39,13 @@ mod functions;
 // optionals permitted in Python, and 'py lifetimes need to be
 // sprinkled around in this module or Bad Things Will Happen (tm)
 // `up4_sim` (off by default) leaves the Python and plotting layers out of the
-// simulation build, which has no plotting backend; `up4_sim_python` (off by
-// default) takes the Python layer in again, without its plots.
+// simulation build; `up4_sim_python` (off by default) takes them in again.
 #[cfg(any(not(up4_sim), up4_sim_python))]
 #[allow(clippy::too_many_arguments, clippy::needless_lifetimes)]
 pub mod pylib;
-#[cfg(not(up4_sim))]
+#[cfg(any(not(up4_sim), up4_sim_python))]
 pub mod plotting;
-#[cfg(not(up4_sim))]
+#[cfg(any(not(up4_sim), up4_sim_python))]
 pub use plotting::*;
 #[cfg(any(not(up4_sim), up4_sim_python))]
 pub use pylib::*;
diff --git a/src/pylib.rs b/src/pylib.rs
index 32bb2a1..17d7fa1 100644
--- a/src/pylib.rs
+++ b/src/pylib.rs
@@ -12,13 +12,11 @@ use numpy::{IntoPyArray, PyArray2};
 pub mod libcomp;
 pub mod libconv;
 pub mod libgrid;
-#[cfg(not(up4_sim))]
 pub mod libplot;
 use crate::datamanager::{Manager, PData, TData};
 
 use libconv::*;
 use libgrid::*;
-#[cfg(not(up4_sim))]
 use libplot::*;
 
 
@@ -942,7 +940,6 @@ fn upppp_rust(_py: Python, m: &PyModule) -> PyResult<()> {
     m.add_class::<PyData>()?;
     m.add_class::<PyGrid>()?;
     m.add_class::<PyConverter>()?;
-    #[cfg(not(up4_sim))]
     m.add_class::<PyPlotter2D>()?;
     m.add_class::<PyVecGrid>()?;
     Ok(())
-- 
2.43.0


From 7c4ab2e52e66ae0aafaf3103ce8fbfbe6e502cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:12 +0000
Subject: [PATCH 49/55] fix: names of colour maps are case-insensitive, as
 documented

---
 src/pylib/libplot.rs | 2 +-
 up4/plotting.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pylib/libplot.rs b/src/pylib/libplot.rs
index 1329292..a6b8453 100644
--- a/src/pylib/libplot.rs
+++ b/src/pylib/libplot.rs
@@ -547,7 +547,7 @@ impl PyPlotter2D {
 impl PyPlotter2D {
     fn get_gradient(&self, colour_map: Option<&str>) -> Option<Gradient> {
         // Once we get reflection, maybe this will look less bad??
-        match colour_map {
+        match colour_map.map(str::to_lowercase).as_deref() {
             Some("turbo") => Some(colorous::TURBO),
             Some("viridis") => Some(colorous::VIRIDIS),
             Some("inferno") => Some(colorous::INFERNO),
diff --git a/up4/plotting.py b/up4/plotting.py
index ba0f815..2f22c2b 100644
--- a/up4/plotting.py
+++ b/up4/plotting.py
@@ -1021,7 +1021,7 @@ class Plotter2D:
                 'Using scaling mode: "minmax" requires values for `min_size` and '
                 "`max_size` to be set"
             )
-        if colour_map is not None and colour_map not in valid_colour_map_values:
+        if colour_map is not None and colour_map.lower() not in valid_colour_map_values:
             raise ValueError(
                 f"Colourmap value: {colour_map} is not valid. Valid values are"
                 f" {valid_colour_map_values}."
-- 
2.43.0


From aa7badca76c07c2a6ea726008c35e1d40e5741da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:57 +0000
Subject: [PATCH 50/55] fix: a depth-averaged quiver plot of the xz plane draws
 its arrows at the x positions

---
 src/plotting/plotting_2d/quiver.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plotting/plotting_2d/quiver.rs b/src/plotting/plotting_2d/quiver.rs
index 99d5b55..59f7924 100644
--- a/src/plotting/plotting_2d/quiver.rs
+++ b/src/plotting/plotting_2d/quiver.rs
@@ -42,7 +42,7 @@ impl QuiverPlot {
 
     pub fn from_vector_grid_depth_averaged(grid: VectorGrid, axis: usize) -> QuiverPlot {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             grid.get_ypositions().to_owned()
         } else {
             grid.get_xpositions().to_owned()
-- 
2.43.0


From e06e0edb0f4e3718f1070b9256e3be36805bba8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:57 +0000
Subject: [PATCH 51/55] fix: parity maps and contours of the xz plane have
 their cells at the x positions

---
 src/plotting/plotting_2d/parity_contour.rs | 8 ++++----
 src/plotting/plotting_2d/parity_map.rs     | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/plotting/plotting_2d/parity_contour.rs b/src/plotting/plotting_2d/parity_contour.rs
index d22f355..c577313 100644
--- a/src/plotting/plotting_2d/parity_contour.rs
+++ b/src/plotting/plotting_2d/parity_contour.rs
@@ -18,7 +18,7 @@ impl ParityContour {
         axis: usize,
     ) -> ParityContour {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -70,7 +70,7 @@ impl ParityContour {
         index: usize,
     ) -> ParityContour {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -133,7 +133,7 @@ impl ParityContour {
         axis: usize,
     ) -> ParityContour {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -168,7 +168,7 @@ impl ParityContour {
         index: usize,
     ) -> ParityContour {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
diff --git a/src/plotting/plotting_2d/parity_map.rs b/src/plotting/plotting_2d/parity_map.rs
index 4c74925..36ae3ad 100644
--- a/src/plotting/plotting_2d/parity_map.rs
+++ b/src/plotting/plotting_2d/parity_map.rs
@@ -20,7 +20,7 @@ impl ParityMap {
         axis: usize,
     ) -> ParityMap {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -72,7 +72,7 @@ impl ParityMap {
         index: usize,
     ) -> ParityMap {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -135,7 +135,7 @@ impl ParityMap {
         axis: usize,
     ) -> ParityMap {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
@@ -170,7 +170,7 @@ impl ParityMap {
         index: usize,
     ) -> ParityMap {
         // select yz (0), xz (1) or xy (2) plane
-        let x = if axis == 0 || axis == 1 {
+        let x = if axis == 0 {
             reference_grid.get_ypositions().to_owned()
         } else {
             reference_grid.get_xpositions().to_owned()
-- 
2.43.0


From 0733b7b539ba53c2970a72d9c77109fd3ec5082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:57 +0000
Subject: [PATCH 52/55] fix: unit_vector_plot takes the max_size it is given

---
 up4/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/up4/plotting.py b/up4/plotting.py
index 2f22c2b..e069e2e 100644
--- a/up4/plotting.py
+++ b/up4/plotting.py
@@ -325,7 +325,7 @@ class Plotter2D:
             index,
             scaling_mode=scaling_mode,
             min_size=min_size,
-            max_size=min_size,
+            max_size=max_size,
             colour_map=colour_map,
         )
         self._plotter._unit_vector_plot(
-- 
2.43.0


From 92521e3356a6a8599bc1670b8e0ab6e00f8c8c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:37 +0000
Subject: [PATCH 53/55] fix: arrows can be drawn in a plane that is one cell
 wide

---
 src/plotting/plotting_2d.rs             | 25 +++++++++++++++++++++++++
 src/plotting/plotting_2d/unit_vector.rs |  8 +++-----
 src/pylib/libplot.rs                    | 10 ++--------
 3 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/plotting/plotting_2d.rs b/src/plotting/plotting_2d.rs
index cc5ac14..7cefc60 100644
--- a/src/plotting/plotting_2d.rs
+++ b/src/plotting/plotting_2d.rs
@@ -1,4 +1,6 @@
 //! Submodule for handling 2D plots.
+use crate::{GridFunctions3D, VectorGrid};
+
 /// Internal representation of arrow data
 #[derive(Clone, Debug)]
 struct Arrow {
@@ -24,6 +26,29 @@ impl Arrow {
     }
 }
 
+/// Size of the first cell of a grid in the plane perpendicular to an axis.
+pub(crate) fn cell_size(grid: &VectorGrid, axis: usize) -> (f64, f64) {
+    let limits = grid.get_limits();
+    let positions = [
+        grid.get_xpositions(),
+        grid.get_ypositions(),
+        grid.get_zpositions(),
+    ];
+    let size = |a: usize| {
+        if positions[a].len() > 1 {
+            positions[a][1] - positions[a][0]
+        } else {
+            // the only cell takes up the whole axis
+            limits[a][1] - limits[a][0]
+        }
+    };
+    match axis {
+        0 => (size(1), size(2)),
+        1 => (size(0), size(2)),
+        _ => (size(0), size(1)),
+    }
+}
+
 pub mod parity_contour;
 pub mod parity_map;
 pub mod parity_plot;
diff --git a/src/plotting/plotting_2d/unit_vector.rs b/src/plotting/plotting_2d/unit_vector.rs
index 163e901..509d580 100644
--- a/src/plotting/plotting_2d/unit_vector.rs
+++ b/src/plotting/plotting_2d/unit_vector.rs
@@ -1,6 +1,6 @@
 use std::f64::consts::PI;
 
-use crate::plotting_2d::Arrow;
+use crate::plotting_2d::{cell_size, Arrow};
 use crate::utilities::maths::meshgrid;
 use crate::{GridFunctions3D, VectorGrid};
 use colorous::Gradient;
@@ -52,8 +52,7 @@ impl UnitVectorPlot {
         v /= &true_norm;
         let norm = Array2::ones(u.dim());
 
-        let dx = x[1] - x[0];
-        let dy = y[1] - y[0];
+        let (dx, dy) = cell_size(&grid, axis);
         let plot = UnitVectorPlot {
             x,
             y,
@@ -102,8 +101,7 @@ impl UnitVectorPlot {
         v /= &true_norm;
         let norm = Array2::ones(u.dim());
 
-        let dx = x[1] - x[0];
-        let dy = y[1] - y[0];
+        let (dx, dy) = cell_size(&grid, axis);
         let plot = UnitVectorPlot {
             x,
             y,
diff --git a/src/pylib/libplot.rs b/src/pylib/libplot.rs
index a6b8453..f633363 100644
--- a/src/pylib/libplot.rs
+++ b/src/pylib/libplot.rs
@@ -68,6 +68,7 @@ impl PyPlotter2D {
             .downcast_ref::<VectorGrid>()
             .expect("This method should only be called from data that is a vector grid.")
             .clone();
+        let (dx, dy) = cell_size(&vector_grid, axis);
         let quiver_plotter = if selection == "depth_average" {
             QuiverPlot::from_vector_grid_depth_averaged(vector_grid, axis)
         } else {
@@ -85,15 +86,11 @@ impl PyPlotter2D {
                 .bound_min_max(min_size.unwrap(), max_size.unwrap())
                 .create_quiver_traces(1.0, cmap),
             Some("half_node") => {
-                let dx = quiver_plotter.x()[1] - quiver_plotter.x()[0];
-                let dy = quiver_plotter.y()[1] - quiver_plotter.y()[0];
                 quiver_plotter
                     .bound_half_node(dx, dy)
                     .create_quiver_traces(1.0, cmap)
             }
             Some("full_node") => {
-                let dx = quiver_plotter.x()[1] - quiver_plotter.x()[0];
-                let dy = quiver_plotter.y()[1] - quiver_plotter.y()[0];
                 quiver_plotter
                     .bound_full_node(dx, dy)
                     .create_quiver_traces(1.0, cmap)
@@ -133,6 +130,7 @@ impl PyPlotter2D {
             .downcast_ref::<VectorGrid>()
             .expect("This method should only be called from data that is a vector grid.")
             .clone();
+        let (dx, dy) = cell_size(&vector_grid, axis);
         let unit_vector_plotter = if selection == "depth_average" {
             UnitVectorPlot::from_vector_grid_depth_averaged(vector_grid, axis)
         } else {
@@ -150,15 +148,11 @@ impl PyPlotter2D {
                 .bound_min_max(min_size.unwrap(), max_size.unwrap())
                 .create_quiver_traces(1.0, cmap),
             Some("half_node") => {
-                let dx = unit_vector_plotter.x()[1] - unit_vector_plotter.x()[0];
-                let dy = unit_vector_plotter.y()[1] - unit_vector_plotter.y()[0];
                 unit_vector_plotter
                     .bound_half_node(dx, dy)
                     .create_quiver_traces(1.0, cmap)
             }
             Some("full_node") => {
-                let dx = unit_vector_plotter.x()[1] - unit_vector_plotter.x()[0];
-                let dy = unit_vector_plotter.y()[1] - unit_vector_plotter.y()[0];
                 unit_vector_plotter
                     .bound_full_node(dx, dy)
                     .create_quiver_traces(1.0, cmap)
-- 
2.43.0


From 7c0b066c01cee1521d90507c61b12206e0144f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:55 +0000
Subject: [PATCH 54/55] fix: limits of a grid in the wrong order are refused,
 as they are for single axes

---
 up4/grid.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/up4/grid.py b/up4/grid.py
index 99701e0..2b0a0b0 100644
--- a/up4/grid.py
+++ b/up4/grid.py
@@ -67,6 +67,10 @@ class Grid(RustGrid):
             )
         elif limits is not None:
             limits = np.asarray(limits)
+            if len(limits) != 6:
+                raise ValueError("limits must have length 6")
+            if any(limits[2 * i] > limits[2 * i + 1] for i in range(3)):
+                raise ValueError("the lower limit of each axis must be smaller than the upper one")
         if not isinstance(num_cells, (list, np.ndarray)) and num_cells is not None:
             raise TypeError(
                 "num_cells must be a list or numpy array not a {}".format(
-- 
2.43.0


From 150029cfd5076f3db458ff1b542d3d393f7a8d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:05 +0000
Subject: [PATCH 55/55] fix: cells without data do not make the mean of a
 vector field NaN

---
 src/grid/vector_grid.rs | 31 +++++++------------------------
 src/pylib/libgrid.rs    | 14 ++++----------
 2 files changed, 11 insertions(+), 34 deletions(-)

diff --git a/src/grid/vector_grid.rs b/src/grid/vector_grid.rs
index f283547..900da92 100644
--- a/src/grid/vector_grid.rs
+++ b/src/grid/vector_grid.rs
@@ -1,5 +1,6 @@
 extern crate ndarray;
 use super::{CellId, GridFunctions3D, Position};
+use crate::utilities::nan_mean;
 use crate::{grid, CylindricalGrid3D};
 use derive_getters::Getters;
 use ndarray::prelude::*;
@@ -60,18 +61,9 @@ impl std::fmt::Debug for VectorGrid {
             self.data[0].get_limits()[0],
             self.data[0].get_limits()[1],
             self.data[0].get_limits()[2],
-            self.data[0]
-                .get_data()
-                .mean()
-                .expect("Unable to calculate mean of data"),
-            self.data[1]
-                .get_data()
-                .mean()
-                .expect("Unable to calculate mean of data"),
-            self.data[2]
-                .get_data()
-                .mean()
-                .expect("Unable to calculate mean of data"),
+            nan_mean(self.data[0].get_data()),
+            nan_mean(self.data[1].get_data()),
+            nan_mean(self.data[2].get_data()),
         )
     }
 }
@@ -87,18 +79,9 @@ impl std::fmt::Display for VectorGrid {
             self.data[0].get_limits()[0],
             self.data[0].get_limits()[1],
             self.data[0].get_limits()[2],
-            self.data[0]
-                .get_data()
-                .mean()
-                .expect("Unable to calculate mean of data"),
-            self.data[1]
-                .get_data()
-                .mean()
-                .expect("Unable to calculate mean of data"),
-            self.data[2]
-                .get_data()
-                .mean()
-                .expect("Unable to calculate mean of data"),
+            nan_mean(self.data[0].get_data()),
+            nan_mean(self.data[1].get_data()),
+            nan_mean(self.data[2].get_data()),
         )
     }
 }
diff --git a/src/pylib/libgrid.rs b/src/pylib/libgrid.rs
index 7482e26..713d676 100644
--- a/src/pylib/libgrid.rs
+++ b/src/pylib/libgrid.rs
@@ -604,11 +604,8 @@ impl PyVecGrid {
             self.grid.get_limits()[0],
             self.grid.get_limits()[1],
             self.grid.get_limits()[2],
-            self.grid
-                .get_data()
-                .mean()
-                .expect("Unable to calculate mean of data"),
-            self.grid.get_data().std(1.),
+            nan_mean(self.grid.get_data()),
+            nan_std(self.grid.get_data()),
             self.grid.get_data().min_skipnan(),
             self.grid.get_data().max_skipnan()
         ))
@@ -622,11 +619,8 @@ impl PyVecGrid {
             self.grid.get_limits()[0],
             self.grid.get_limits()[1],
             self.grid.get_limits()[2],
-            self.grid
-                .get_data()
-                .mean()
-                .expect("Unable to calculate mean of data"),
-            self.grid.get_data().std(1.),
+            nan_mean(self.grid.get_data()),
+            nan_std(self.grid.get_data()),
             self.grid.get_data().min_skipnan(),
             self.grid.get_data().max_skipnan()
         ))
-- 
2.43.0

