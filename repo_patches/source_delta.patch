From 4e74489dab1c7c182482482b49cd9dcef5cb1665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 01/37] fix: nearest-neighbour search with infinite distances

Computing inf - inf while descending the vantage-point tree gave NaN, so
that regions with valid neighbours were pruned.
---
 src/vptree.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/vptree.rs b/src/vptree.rs
index c68dac9..34951f9 100644
--- a/src/vptree.rs
+++ b/src/vptree.rs
@@ -386,13 +386,19 @@ impl<P: Copy + Hash + Eq, DF: Distance<P>> VPTree<P, DF> {
                     cached_dist,
                 );
                 nearest = Self::nearer(nearest, nearest_pref);
-                let possibly_in_less_promising =
-                    (d - children.radius).abs() <= self.max_dist;
+                // lower bound on the distance to the other region, taking
+                // care not to compute inf - inf
+                let gap = if d == children.radius {
+                    n64(0.)
+                } else {
+                    (d - children.radius).abs()
+                };
+                let possibly_in_less_promising = gap <= self.max_dist;
                 if !possibly_in_less_promising {
                     return nearest;
                 }
                 if let Some((_, dn)) = nearest {
-                    if dn < (children.radius - d).abs() {
+                    if dn < gap {
                         return nearest;
                     }
                 }
-- 
2.43.0


From aee270013c11b893c73ec147395ced479c6645ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 02/37] fix: ignore cell seeds with vanishing weight

Seeds with non-negative weight are documented to be ignored, but a weight
of exactly zero still produced a cell.
---
 src/resampler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resampler.rs b/src/resampler.rs
index 8cc6b7d..29d93d7 100644
--- a/src/resampler.rs
+++ b/src/resampler.rs
@@ -93,7 +93,7 @@ where
             let seeds = self.seeds.select_seeds(&events);
             seeds.for_each(|seed| {
                 assert!(seed < events.len());
-                if events[seed].weight() > 0. {
+                if events[seed].weight() >= 0. {
                     return;
                 }
                 trace!("New cell around event {}", events[seed].id());
-- 
2.43.0


From bbaf8e6fdb7da09d30d4dcd5ce84e246512a6ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 03/37] fix: keep the largest cells when combining cell
 collectors

Truncating after merging kept the smallest cells by radius, number of
members, and weight.
---
 src/cell_collector.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/cell_collector.rs b/src/cell_collector.rs
index 66292d8..c04de1f 100644
--- a/src/cell_collector.rs
+++ b/src/cell_collector.rs
@@ -206,10 +206,9 @@ impl CellCollector {
     }
 }
 
+// keep the `n` entries with the largest keys
 fn truncate<K: Ord, V>(map: &mut BTreeMap<K, V>, n: usize) {
-    let mut count = 0;
-    map.retain(|_, _| {
-        count += 1;
-        count <= n
-    });
+    while map.len() > n {
+        map.pop_first();
+    }
 }
-- 
2.43.0


From 3b168288b749890bd9d0256c09cd3a800e574745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 04/37] fix: set the weights of events removed by unweighting
 to zero

Previously, these events kept their original weights in multiweight
builds, so the sum of weights was not preserved. Conversely, without
the multiweight feature events without identified particles lost their
weight.
---
 src/cres.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/cres.rs b/src/cres.rs
index 16838ed..30dfc29 100644
--- a/src/cres.rs
+++ b/src/cres.rs
@@ -57,7 +57,7 @@ use particle_id::ParticleID;
 use rayon::prelude::*;
 use thiserror::Error;
 
-use crate::event::Event;
+use crate::event::{Event, Weights};
 use crate::io::EventRecord;
 use crate::progress_bar::ProgressBar;
 use crate::traits::*;
@@ -185,6 +185,8 @@ where
         let nevents = events.len();
         info!("Read {nevents} events");
 
+        let mut weights = initial_weights(&events);
+
         events.retain(|e| !e.outgoing().is_empty());
         if events.len() < nevents {
             warn!(
@@ -217,7 +219,6 @@ where
             -sum_neg_wt / (sum_wt - sum_neg_wt * 2.)
         );
 
-        let mut weights = vec![crate::event::Weights::default(); nevents];
         for event in events {
             weights[event.id] = event.weights.into_inner();
         }
@@ -292,6 +293,25 @@ where
     }
 }
 
+/// Weights of the events that will not be returned after unweighting
+///
+/// Ignored events without identified particles keep their weight, all
+/// other events are discarded by unweighting, i.e. have vanishing weight.
+fn initial_weights(events: &[Event]) -> Vec<Weights> {
+    let mut weights = vec![Weights::default(); events.len()];
+    for event in events {
+        let mut weight = event.weights.read().clone();
+        if !event.outgoing().is_empty() {
+            weight.iter_mut().for_each(|w| *w = n64(0.));
+        } else if cfg!(feature = "multiweight") {
+            // no weights, so the event record will not be changed
+            continue;
+        }
+        weights[event.id] = weight;
+    }
+    weights
+}
+
 fn log_multiplicities(events: &[Event]) {
     const MAX_MULT_SHOWN: usize = 1000;
     if log_enabled!(log::Level::Warn) {
-- 
2.43.0


From dba0ae45605b836e5d8396a82151c9ba0b3640c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 05/37] fix: keep the complete header of files without events

---
 src/hepmc2.rs       | 4 +++-
 src/stripper_xml.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 30bec11..8a9e6fc 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -109,7 +109,9 @@ fn init_source(
             break;
         }
     }
-    header.pop();
+    if header.ends_with(b"\nE") {
+        header.pop();
+    }
     Ok((header, buf))
 }
 
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index d557b4d..8c70990 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -530,7 +530,9 @@ fn init_source(
             break;
         }
     }
-    header.truncate(header.len() - b"<se".len());
+    if header.ends_with(b"<se") {
+        header.truncate(header.len() - b"<se".len());
+    }
     Ok((header, buf))
 }
 
-- 
2.43.0


From d67aae9eb0ae731cf665e526a69573c6154dba33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 06/37] fix: count remaining STRIPPER XML events correctly

Reset the number of remaining events when rewinding and do not
underflow if there are more events than announced.
---
 src/stripper_xml.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 8c70990..3ad1302 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -38,6 +38,7 @@ use crate::{
 pub struct FileReader {
     source_path: PathBuf,
     source: Box<dyn BufRead>,
+    nsubevents: usize,
     rem_subevents: usize,
     header: Vec<u8>,
 }
@@ -53,11 +54,12 @@ impl FileReader {
             return Err(XMLError(Error::BadTag(header_info.to_string())));
         };
 
-        let rem_subevents = nsubevents as usize;
+        let nsubevents = nsubevents as usize;
         Ok(Self {
             source_path,
             source,
-            rem_subevents,
+            nsubevents,
+            rem_subevents: nsubevents,
             header,
         })
     }
@@ -92,7 +94,7 @@ impl FileReader {
 
         trace!("Read STRIPPER XML record:\n{record}");
 
-        self.rem_subevents -= 1;
+        self.rem_subevents = self.rem_subevents.saturating_sub(1);
         Some(Ok(record))
     }
 }
@@ -112,6 +114,7 @@ impl Rewind for FileReader {
 
     fn rewind(&mut self) -> Result<(), Self::Error> {
         (_, self.source) = init_source(&self.source_path)?;
+        self.rem_subevents = self.nsubevents;
 
         Ok(())
     }
-- 
2.43.0


From a4821a9b0a0bd6a397f57d74f0e3dd57fb64d546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 07/37] fix: report missing normalisation of STRIPPER XML files

Instead of an error, the scale factor defaulted to -1 divided by the
number of events, changing the signs of all event weights.
---
 src/stripper_xml.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 3ad1302..7b1d890 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -300,7 +300,7 @@ where
     use CreateError::*;
 
     let mut event_files = Vec::new();
-    let mut rescale: HashMap<_, (f64, u64)> = HashMap::new();
+    let mut rescale: HashMap<_, (Option<f64>, u64)> = HashMap::new();
     for (path, out) in paths {
         let path = path.as_ref();
         let file = File::open(path).map_err(OpenInput)?;
@@ -313,11 +313,11 @@ where
                 match tag {
                     XMLTag::Normalization { name, scale } => {
                         let entry = rescale.entry(name).or_default();
-                        entry.0 = scale;
+                        entry.0 = Some(scale);
                         // don't add to vec of event files
                     }
                     XMLTag::Eventrecord { name, nevents, .. } => {
-                        let entry = rescale.entry(name).or_insert((-1., 0));
+                        let entry = rescale.entry(name).or_default();
                         entry.1 += nevents;
                         event_files.push((path.to_owned(), out))
                     }
@@ -332,7 +332,9 @@ where
     }
     let rescale = rescale
         .into_iter()
-        .map(|(name, (scale, nevents))| (name, scale / (nevents as f64)))
+        .filter_map(|(name, (scale, nevents))| {
+            Some((name, scale? / (nevents as f64)))
+        })
         .collect();
     Ok((event_files, rescale))
 }
-- 
2.43.0


From a57809e9a01ca408f4c289fb81aa78238fd16e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 08/37] fix: updating weights one by one with combined event
 I/O

Start from the first file after rewinding and signal the end of the
last file instead of panicking.
---
 src/io.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 37154e5..d5f9011 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -621,16 +621,30 @@ impl UpdateWeights for CombinedFileIO {
         &mut self,
         weights: &Weights,
     ) -> Result<bool, Self::Error> {
-        while self.current_file_idx < self.files.len() {
-            let current = self.current.as_mut().unwrap();
-            let res = current.update_next_weights(weights)?;
-            if res {
+        if self.files.is_empty() {
+            return Ok(false);
+        }
+        loop {
+            let Some(current) = self.current.as_mut() else {
+                self.open(0)?;
+                continue;
+            };
+            if current.update_next_weights(weights)? {
                 return Ok(true);
             }
+            if self.current_file_idx + 1 == self.files.len() {
+                return Ok(false);
+            }
             current.finish_weight_update()?;
             self.open(self.current_file_idx + 1)?;
         }
-        Ok(false)
+    }
+
+    fn finish_weight_update(&mut self) -> Result<(), Self::Error> {
+        match self.current.as_mut() {
+            Some(current) => current.finish_weight_update(),
+            None => Ok(()),
+        }
     }
 }
 
-- 
2.43.0


From c0bea9f6705fe56c70dba21e7eebf4de000af4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 09/37] fix: report errors when completing output files

Errors when flushing output buffers or writing the trailer of compressed
files were ignored, so a full disk could result in truncated output
files without any error. Moreover, lz4 output was never completed.
---
 src/bin/classify-events.rs |  18 +++---
 src/bin/partition.rs       |   8 ++-
 src/compression.rs         | 118 ++++++++++++++++++++++++++++++-------
 src/hepmc2.rs              |  13 +++-
 src/lhef.rs                |  18 ++++--
 src/stripper_xml.rs        |  13 +++-
 6 files changed, 144 insertions(+), 44 deletions(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index d41d176..176188d 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -10,7 +10,7 @@ use std::{
 use anyhow::{anyhow, Context, Result};
 use clap::Parser;
 use cres::{
-    compression::{compress_writer, Compression},
+    compression::{CompressedWriter, Compression},
     distance::EuclWithScaledPt,
     event::Event,
     formats::FileFormat,
@@ -22,7 +22,7 @@ use cres::{
     GIT_BRANCH, GIT_REV, VERSION,
 };
 use env_logger::Env;
-use log::{debug, error, info, trace};
+use log::{debug, info, trace};
 
 use crate::opt_classify::Opt;
 
@@ -145,9 +145,8 @@ impl Classifier {
             event_progress.inc(1);
         }
         for writer in writers {
-            if let Err(err) = write_footer(writer, format) {
-                error!("Failed to write event file footer: {err}");
-            }
+            write_footer(writer, format)
+                .with_context(|| "Failed to write event file footer")?;
         }
         Ok(())
     }
@@ -208,11 +207,12 @@ impl Classifier {
 }
 
 fn write_footer(
-    mut writer: impl Write,
+    mut writer: CompressedWriter<impl Write>,
     format: FileFormat,
 ) -> std::io::Result<()> {
     writer.write_all(get_footer(format).as_bytes())?;
-    writer.write_all(b"\n")
+    writer.write_all(b"\n")?;
+    writer.finish()
 }
 
 fn trim_footer(event: &str, format: FileFormat) -> &str {
@@ -241,7 +241,7 @@ fn make_byte_writers(
     outdir: &Path,
     file: &Path,
     compression: Option<Compression>,
-) -> Result<Vec<Box<dyn Write>>> {
+) -> Result<Vec<CompressedWriter<BufWriter<File>>>> {
     let filename = file
         .file_name()
         .ok_or_else(|| anyhow!("Failed to extract filename from {file:?}"))?;
@@ -264,7 +264,7 @@ fn make_byte_writers(
         let outfile = File::create(&outname)
             .with_context(|| format!("Failed to create {outname:?}"))?;
         let out = BufWriter::new(outfile);
-        let out = compress_writer(out, compression)
+        let out = CompressedWriter::new(out, compression)
             .with_context(|| format!("Failed to compress {outname:?}"))?;
         res.push(out)
     }
diff --git a/src/bin/partition.rs b/src/bin/partition.rs
index 6e48c04..33fcba8 100644
--- a/src/bin/partition.rs
+++ b/src/bin/partition.rs
@@ -8,7 +8,7 @@ use crate::opt_partition::Opt;
 use anyhow::{bail, Context, Result};
 use clap::Parser;
 use cres::{
-    compression::compress_writer,
+    compression::CompressedWriter,
     distance::{DistWrapper, EuclWithScaledPt},
     event::Event,
     io::Converter,
@@ -117,9 +117,11 @@ fn main() -> Result<()> {
     info!("Writing to {outfile:?}");
     let out = File::create(&outfile)
         .with_context(|| format!("Failed to open {outfile:?}"))?;
-    let out = compress_writer(out, opt.compression)
+    let mut out = CompressedWriter::new(out, opt.compression)
         .with_context(|| format!("Failed to compress output to {outfile:?}"))?;
-    serde_yaml::to_writer(out, &(clustering, partition))?;
+    serde_yaml::to_writer(&mut out, &(clustering, partition))?;
+    out.finish()
+        .with_context(|| format!("Failed to write {outfile:?}"))?;
     info!("Done");
     Ok(())
 }
diff --git a/src/compression.rs b/src/compression.rs
index f99529b..41d7091 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -21,27 +21,105 @@ pub fn compress_writer<'a, W: 'a + Write>(
     writer: W,
     compression: Option<Compression>,
 ) -> Result<Box<dyn Write + 'a>, std::io::Error> {
-    match compression {
-        Some(Compression::Bzip2) => {
-            let encoder = BzEncoder::new(writer, bzip2::Compression::best());
-            Ok(Box::new(encoder))
-        }
-        Some(Compression::Gzip(lvl)) => {
-            let encoder =
-                GzEncoder::new(writer, flate2::Compression::new(lvl.into()));
-            Ok(Box::new(encoder))
-        }
-        Some(Compression::Lz4(lvl)) => {
-            let encoder = lz4::EncoderBuilder::new()
-                .auto_flush(true)
-                .level(lvl.into())
-                .build(writer)?;
-            Ok(Box::new(encoder))
+    Ok(Box::new(CompressedWriter::new(writer, compression)?))
+}
+
+/// Writer that compresses to a given format
+///
+/// Errors when completing the output are only reported by
+/// [finish](Self::finish). They are ignored if the writer is just
+/// dropped.
+pub struct CompressedWriter<W: Write>(Option<Encoder<W>>);
+
+enum Encoder<W: Write> {
+    None(W),
+    Bzip2(BzEncoder<W>),
+    Gzip(GzEncoder<W>),
+    Lz4(lz4::Encoder<W>),
+    Zstd(zstd::Encoder<'static, W>),
+}
+
+impl<W: Write> CompressedWriter<W> {
+    /// Convert into a writer that compresses to the given format
+    pub fn new(
+        writer: W,
+        compression: Option<Compression>,
+    ) -> Result<Self, std::io::Error> {
+        let encoder = match compression {
+            Some(Compression::Bzip2) => Encoder::Bzip2(BzEncoder::new(
+                writer,
+                bzip2::Compression::best(),
+            )),
+            Some(Compression::Gzip(lvl)) => Encoder::Gzip(GzEncoder::new(
+                writer,
+                flate2::Compression::new(lvl.into()),
+            )),
+            Some(Compression::Lz4(lvl)) => Encoder::Lz4(
+                lz4::EncoderBuilder::new()
+                    .auto_flush(true)
+                    .level(lvl.into())
+                    .build(writer)?,
+            ),
+            Some(Compression::Zstd(lvl)) => {
+                Encoder::Zstd(zstd::Encoder::new(writer, lvl.into())?)
+            }
+            None => Encoder::None(writer),
+        };
+        Ok(Self(Some(encoder)))
+    }
+
+    /// Complete the output
+    ///
+    /// Nothing can be written afterwards. Calling this method again has
+    /// no effect.
+    pub fn finish(&mut self) -> Result<(), std::io::Error> {
+        let mut writer = match self.0.take() {
+            Some(Encoder::None(w)) => w,
+            Some(Encoder::Bzip2(w)) => w.finish()?,
+            Some(Encoder::Gzip(w)) => w.finish()?,
+            Some(Encoder::Lz4(w)) => {
+                let (w, res) = w.finish();
+                res?;
+                w
+            }
+            Some(Encoder::Zstd(w)) => w.finish()?,
+            None => return Ok(()),
+        };
+        writer.flush()
+    }
+
+    /// Whether the output is already complete
+    pub fn is_finished(&self) -> bool {
+        self.0.is_none()
+    }
+
+    fn encoder(&mut self) -> Result<&mut dyn Write, std::io::Error> {
+        match self.0.as_mut() {
+            Some(Encoder::None(w)) => Ok(w),
+            Some(Encoder::Bzip2(w)) => Ok(w),
+            Some(Encoder::Gzip(w)) => Ok(w),
+            Some(Encoder::Lz4(w)) => Ok(w),
+            Some(Encoder::Zstd(w)) => Ok(w),
+            None => Err(std::io::Error::other("Output is already complete")),
         }
-        Some(Compression::Zstd(lvl)) => {
-            let encoder = zstd::Encoder::new(writer, lvl.into())?;
-            Ok(Box::new(encoder.auto_finish()))
+    }
+}
+
+impl<W: Write> Write for CompressedWriter<W> {
+    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+        self.encoder()?.write(buf)
+    }
+
+    fn flush(&mut self) -> std::io::Result<()> {
+        if self.is_finished() {
+            return Ok(());
         }
-        None => Ok(Box::new(writer)),
+        self.encoder()?.flush()
+    }
+}
+
+impl<W: Write> Drop for CompressedWriter<W> {
+    fn drop(&mut self) {
+        let _ = self.finish();
     }
 }
diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 8a9e6fc..be6812d 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -11,7 +11,7 @@ use nom::{multi::count, IResult, Parser};
 use particle_id::ParticleID;
 
 use crate::{
-    compression::{compress_writer, Compression},
+    compression::{CompressedWriter, Compression},
     event::{Event, EventBuilder, Weights},
     io::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
@@ -119,7 +119,7 @@ fn init_source(
 pub struct FileIO {
     reader: FileReader,
     sink_path: PathBuf,
-    sink: Box<dyn Write>,
+    sink: CompressedWriter<BufWriter<File>>,
     _weight_names: Vec<String>,
 }
 
@@ -136,7 +136,7 @@ impl FileIO {
         let outfile = File::create(&sink_path).map_err(CreateTarget)?;
         let sink = BufWriter::new(outfile);
         let mut sink =
-            compress_writer(sink, compression).map_err(CompressTarget)?;
+            CompressedWriter::new(sink, compression).map_err(CompressTarget)?;
         sink.write_all(reader.header()).map_err(Write)?;
 
         Ok(FileIO {
@@ -235,9 +235,11 @@ impl UpdateWeights for FileIO {
         self.rewind()?;
         for (n, weight) in weights.iter().enumerate() {
             if !self.update_next_weights(weight)? {
+                self.finish_weight_update()?;
                 return Ok(n);
             }
         }
+        self.finish_weight_update()?;
         Ok(weights.len())
     }
 
@@ -248,6 +250,11 @@ impl UpdateWeights for FileIO {
         let res = self.update_next_weights_helper(weights);
         self.into_io_error(res)
     }
+
+    fn finish_weight_update(&mut self) -> Result<(), Self::Error> {
+        let res = self.sink.finish();
+        self.into_io_error(res.map_err(WriteError::IO))
+    }
 }
 
 /// Parser for HepMC event records
diff --git a/src/lhef.rs b/src/lhef.rs
index e7da39a..25185b7 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -16,7 +16,7 @@ use nom::{
 use particle_id::ParticleID;
 
 use crate::{
-    compression::{compress_writer, Compression},
+    compression::{CompressedWriter, Compression},
     event::{Event, EventBuilder, Weights},
     hepmc2::update_central_weight,
     io::{
@@ -93,7 +93,7 @@ impl Iterator for FileReader {
 pub struct FileIO {
     reader: FileReader,
     sink_path: PathBuf,
-    sink: Box<dyn Write>,
+    sink: CompressedWriter<BufWriter<File>>,
     _weight_names: Vec<String>,
 }
 
@@ -112,7 +112,7 @@ impl FileIO {
         let outfile = File::create(&sink_path).map_err(CreateTarget)?;
         let sink = BufWriter::new(outfile);
         let mut sink =
-            compress_writer(sink, compression).map_err(CompressTarget)?;
+            CompressedWriter::new(sink, compression).map_err(CompressTarget)?;
         sink.write_all(reader.header()).map_err(Write)?;
 
         Ok(FileIO {
@@ -282,6 +282,7 @@ impl UpdateWeights for FileIO {
         self.rewind()?;
         for (n, weight) in weights.iter().enumerate() {
             if !self.update_next_weights(weight)? {
+                self.finish_weight_update()?;
                 return Ok(n);
             }
         }
@@ -298,9 +299,14 @@ impl UpdateWeights for FileIO {
     }
 
     fn finish_weight_update(&mut self) -> Result<(), Self::Error> {
-        let res = self.sink.write_all(b"\n</LesHouchesEvents>\n");
-        self.into_io_error(res.map_err(WriteError::IO))?;
-        Ok(())
+        if self.sink.is_finished() {
+            return Ok(());
+        }
+        let res = self
+            .sink
+            .write_all(b"\n</LesHouchesEvents>\n")
+            .and_then(|_| self.sink.finish());
+        self.into_io_error(res.map_err(WriteError::IO))
     }
 }
 
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 7b1d890..5d5965e 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -23,7 +23,7 @@ use stripper_xml::normalization::Normalization;
 use thiserror::Error;
 
 use crate::{
-    compression::{compress_writer, Compression},
+    compression::{CompressedWriter, Compression},
     event::{Event, EventBuilder, Weights},
     four_vector::FourVector,
     io::{
@@ -136,7 +136,7 @@ impl Iterator for FileReader {
 pub struct FileIO {
     reader: FileReader,
     sink_path: PathBuf,
-    sink: Box<dyn Write>,
+    sink: CompressedWriter<BufWriter<File>>,
     _weight_names: Vec<String>,
     weight_scale: f64,
 }
@@ -161,7 +161,7 @@ impl FileIO {
         let outfile = File::create(&sink_path).map_err(CreateTarget)?;
         let sink = BufWriter::new(outfile);
         let mut sink =
-            compress_writer(sink, compression).map_err(CompressTarget)?;
+            CompressedWriter::new(sink, compression).map_err(CompressTarget)?;
         sink.write_all(reader.header()).map_err(Write)?;
         let header_info = extract_xml_info(reader.header())?;
         let XMLTag::Eventrecord { name, .. } = header_info else {
@@ -662,9 +662,11 @@ impl UpdateWeights for FileIO {
         self.rewind()?;
         for (n, weight) in weights.iter().enumerate() {
             if !self.update_next_weights(weight)? {
+                self.finish_weight_update()?;
                 return Ok(n);
             }
         }
+        self.finish_weight_update()?;
         Ok(weights.len())
     }
 
@@ -675,6 +677,11 @@ impl UpdateWeights for FileIO {
         let res = self.update_next_weights_helper(weights);
         self.into_io_error(res)
     }
+
+    fn finish_weight_update(&mut self) -> Result<(), Self::Error> {
+        let res = self.sink.finish();
+        self.into_io_error(res.map_err(WriteError::IO))
+    }
 }
 
 fn double(input: &str) -> IResult<&str, f64> {
-- 
2.43.0


From 6fb98f50d5f4a463b4bba899eeb5691e00c89643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 10/37] fix: report malformed event records instead of
 panicking

---
 src/hepmc2.rs       | 31 ++++++++++++++++++++-----------
 src/lhef.rs         | 15 +++++++++------
 src/stripper_xml.rs |  5 +++--
 3 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index be6812d..9ca17e3 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -15,7 +15,7 @@ use crate::{
     event::{Event, EventBuilder, Weights},
     io::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
-        FileIOError, ReadError, WriteError,
+        FileIOError, ReadError, Utf8Error, WriteError,
     },
     parsing::{any_entry, double_entry, i32_entry, u32_entry},
     traits::{Rewind, UpdateWeights},
@@ -46,10 +46,7 @@ impl FileReader {
             match self.source.read_until(b'E', &mut record) {
                 Ok(0) => {
                     if record.len() > 1 {
-                        let record = String::from_utf8(record).unwrap();
-                        assert!(record.starts_with('E'));
-                        trace!("Read HepMC record:\n{record}");
-                        return Some(Ok(record));
+                        return Some(into_record(record));
                     } else {
                         return None;
                     }
@@ -59,13 +56,17 @@ impl FileReader {
             }
         }
         record.pop();
-        let record = String::from_utf8(record).unwrap();
-        assert!(record.starts_with('E'));
-        trace!("Read HepMC record:\n{record}");
-        Some(Ok(record))
+        Some(into_record(record))
     }
 }
 
+fn into_record(record: Vec<u8>) -> Result<String, ReadError> {
+    let record = String::from_utf8(record).map_err(Utf8Error::from)?;
+    assert!(record.starts_with('E'));
+    trace!("Read HepMC record:\n{record}");
+    Ok(record)
+}
+
 impl EventFileReader for FileReader {
     fn path(&self) -> &Path {
         self.source_path.as_path()
@@ -367,7 +368,9 @@ fn update_named_weights(
     }
 
     let start = weights_start + 1;
-    let line_end = record[start..].find('\n').unwrap();
+    let line_end = record[start..].find('\n').ok_or_else(|| {
+        FindEntry("end of event line", take_chars(record, 100))
+    })?;
     let end = start + line_end;
     // there are no entries in the E line after the weights, so this is safe
     record.replace_range(start..end, &weight_entries.join(" "));
@@ -466,7 +469,13 @@ fn extract_weights(record: &str) -> Result<(f64, Vec<f64>, &str), ReadError> {
         let (rest, weights) = count(double_entry, nweights as usize)
             .parse(rest)
             .map_err(|_| parse_err("event weight entries", rest))?;
-        (weights[0], weights, rest)
+        let Some(&weight) = weights.first() else {
+            return Err(FindEntry(
+                "event weight entry",
+                take_chars(record, 100),
+            ));
+        };
+        (weight, weights, rest)
     } else {
         let (rest, weight) = double_entry(rest)
             .map_err(|_| parse_err("event weight entry", rest))?;
diff --git a/src/lhef.rs b/src/lhef.rs
index 25185b7..a21dd0f 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -8,7 +8,8 @@ use audec::auto_decompress;
 use log::trace;
 use noisy_float::prelude::*;
 use nom::{
-    character::complete::{i32, space0, u32},
+    bytes::complete::take_until,
+    character::complete::{char, i32, space0, u32},
     multi::count,
     sequence::preceded,
     IResult, Parser,
@@ -21,7 +22,7 @@ use crate::{
     hepmc2::update_central_weight,
     io::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
-        FileIOError, ReadError, WriteError,
+        FileIOError, ReadError, Utf8Error, WriteError,
     },
     parsing::{any_entry, double_entry, i32_entry, non_space},
     traits::{Rewind, UpdateWeights},
@@ -55,7 +56,10 @@ impl FileReader {
                 Err(err) => return Some(Err(err.into())),
             }
         }
-        let record = String::from_utf8(record).unwrap();
+        let record = match String::from_utf8(record) {
+            Ok(record) => record,
+            Err(err) => return Some(Err(Utf8Error::from(err).into())),
+        };
         trace!("Read Les Houches Event record:\n{record}");
         Some(Ok(record))
     }
@@ -238,7 +242,7 @@ impl LHEFParser for Converter {
         let (rest, nparticles): (_, u32) =
             u32_entry0(record).map_err(|_| parse_err("NUP entry", record))?;
         let nparticles = nparticles as usize;
-        let mut event = EventBuilder::with_capacity(nparticles - 2);
+        let mut event = EventBuilder::new();
         let (rest, _idrup) =
             any_entry(rest).map_err(|_| parse_err("IDRUP entry", rest))?;
         let (rest, wt) =
@@ -312,8 +316,7 @@ impl UpdateWeights for FileIO {
 
 fn non_weight_entries(record: &str) -> IResult<&str, &str> {
     let record = record.trim_start();
-    let line_end = record.find('\n').unwrap(); // TODO: error treatment
-    let rest = &record[(line_end + 1)..];
+    let (rest, _) = (take_until("\n"), char('\n')).parse(record)?;
     let (rest, _nup) = preceded(space0, non_space).parse(rest)?;
     let (rest, _idrup) = any_entry(rest)?;
     let (parsed, rest) = record.split_at(record.len() - rest.len());
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 5d5965e..6603da0 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -12,7 +12,7 @@ use log::{debug, trace};
 use noisy_float::prelude::*;
 use nom::{
     bytes::complete::tag,
-    character::complete::{char, i32, multispace0, space0, space1, u64},
+    character::complete::{anychar, char, i32, multispace0, space0, space1, u64},
     combinator::all_consuming,
     sequence::preceded,
     IResult, Parser,
@@ -602,7 +602,8 @@ impl StripperXmlParser for Converter {
             let (r, _) = tag("\">").parse(r).map_err(|_err: NomErr<'_>| {
                 Error::IncompleteTag("<p>", take_chars(r, 100))
             })?;
-            let (r, p) = particle_momentum(&r[1..])
+            let (r, p) = preceded(anychar, particle_momentum)
+                .parse(r)
                 .map_err(|_| parse_err("particle momentum entry", r))?;
             event.add_outgoing(pid, p);
             (rest, _) = tag("</p>").parse(r).map_err(|_err: NomErr<'_>| {
-- 
2.43.0


From 80e8996af5288b702adc54ee11b8ac4c93a2d775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 11/37] fix: match named HepMC weights independent of their
 order

If the order of the weight names differed between event files, the
resampling would mix different weights. Report missing weight names
instead of panicking.
---
 src/hepmc2.rs | 48 ++++++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 9ca17e3..9a6e5d3 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -284,6 +284,8 @@ impl HepMCParser for Converter {
         let (weight, _weights, rest) = extract_weights(record)?;
         event.add_weight(n64(weight));
         record = rest;
+        #[cfg(feature = "multiweight")]
+        let mut missing_weight = self.weight_names().first();
 
         #[allow(non_snake_case)]
         let mut energy_unit = EnergyUnit::GeV;
@@ -295,6 +297,7 @@ impl HepMCParser for Converter {
                 Some(b'N') => {}
                 #[cfg(feature = "multiweight")]
                 Some(b'N') => {
+                    missing_weight = None;
                     record = parse_weight_names_line(
                         self, record, &_weights, &mut event,
                     )?
@@ -312,6 +315,11 @@ impl HepMCParser for Converter {
             }
         }
 
+        #[cfg(feature = "multiweight")]
+        if let Some(missing) = missing_weight {
+            return Err(FindWeight(missing.clone(), "no names".to_owned()));
+        }
+
         if energy_unit != EnergyUnit::GeV {
             assert_eq!(energy_unit, EnergyUnit::MeV);
             event.rescale_energies(n64(1e-3));
@@ -345,15 +353,17 @@ fn update_named_weights(
     let (names, nnames) = u32_entry(names).map_err(|_| {
         ParseEntry("number of weight names entry", take_chars(names, 100))
     })?;
-    let mut weight_pos = Vec::with_capacity(weight_names.len());
+    let mut weight_pos = vec![None; weight_names.len()];
     let mut rest = names;
     for nentry in 0..(nnames as usize) {
         let name;
         (rest, name) = string_entry(rest).map_err(|_| {
             ParseEntry("weight name entry", take_chars(rest, 100))
         })?;
-        if weight_names.iter().any(|n| n == name) {
-            weight_pos.push(nentry);
+        for (wanted, pos) in weight_names.iter().zip(weight_pos.iter_mut()) {
+            if wanted == name {
+                *pos = Some(nentry);
+            }
         }
     }
 
@@ -364,7 +374,11 @@ fn update_named_weights(
             .map(|w| w.to_string()),
     );
     for (idx, weight) in weight_pos.iter().zip(weights.iter().skip(1)) {
-        weight_entries[*idx] = weight.to_string();
+        let entry = idx.and_then(|idx| weight_entries.get_mut(idx));
+        let Some(entry) = entry else {
+            return Err(FindEntry("named weight", take_chars(record, 100)));
+        };
+        *entry = weight.to_string();
     }
 
     let start = weights_start + 1;
@@ -491,7 +505,6 @@ fn parse_weight_names_line<'a>(
     all_weights: &[f64],
     event: &mut EventBuilder,
 ) -> Result<&'a str, ReadError> {
-    use std::collections::HashMap;
     use ReadError::*;
 
     let parse_err =
@@ -501,8 +514,8 @@ fn parse_weight_names_line<'a>(
     if weight_names.is_empty() {
         return Ok(record);
     }
-    let mut weight_seen: HashMap<_, _> =
-        weight_names.iter().map(|n| (n.as_str(), false)).collect();
+    // the order of the names can differ between event files
+    let mut found = vec![None; weight_names.len()];
     let (names, nnames) = u32_entry(&record[1..])
         .map_err(|_| parse_err("number of weight names entry", record))?;
     record = names;
@@ -510,20 +523,19 @@ fn parse_weight_names_line<'a>(
         let name;
         (record, name) = string_entry(record)
             .map_err(|_| parse_err("weight name entry", record))?;
-        if let Some(seen) = weight_seen.get_mut(name) {
-            *seen = true;
-            event.add_weight(n64(*weight));
+        for (wanted, found) in weight_names.iter().zip(found.iter_mut()) {
+            if wanted == name {
+                *found = Some(*weight);
+            }
         }
     }
-    let missing =
-        weight_seen
-            .into_iter()
-            .find_map(|(name, seen)| if seen { None } else { Some(name) });
-    if let Some(missing) = missing {
-        Err(FindWeight(missing.to_owned(), names.to_owned()))
-    } else {
-        Ok(record)
+    for (name, weight) in weight_names.iter().zip(found) {
+        let Some(weight) = weight else {
+            return Err(FindWeight(name.to_owned(), names.to_owned()));
+        };
+        event.add_weight(n64(weight));
     }
+    Ok(record)
 }
 
 fn non_weight_entries(line: &str) -> IResult<&str, &str> {
-- 
2.43.0


From 5bd64064c7b89398cf45f9da07e1f25f4b3e5fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 12/37] fix: reject event weights and momenta that are not
 finite

NaN entries led to panics or invalid weights for all events.
---
 src/hepmc2.rs       | 27 ++++++++++++++++-----------
 src/lhef.rs         | 12 ++++++------
 src/parsing.rs      |  5 +++++
 src/stripper_xml.rs |  4 ++--
 4 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 9a6e5d3..76ca62e 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -17,7 +17,7 @@ use crate::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
         FileIOError, ReadError, Utf8Error, WriteError,
     },
-    parsing::{any_entry, double_entry, i32_entry, u32_entry},
+    parsing::{any_entry, double_entry, finite_entry, i32_entry, u32_entry},
     traits::{Rewind, UpdateWeights},
     util::take_chars,
 };
@@ -443,11 +443,11 @@ fn parse_particle_line<'a>(
         any_entry(&record[1..]).map_err(|_| parse_err("barcode entry"))?;
     let (rest, id) =
         i32_entry(rest).map_err(|_| parse_err("particle id entry"))?;
-    let (rest, px) = double_entry(rest).map_err(|_| parse_err("px entry"))?;
-    let (rest, py) = double_entry(rest).map_err(|_| parse_err("py entry"))?;
-    let (rest, pz) = double_entry(rest).map_err(|_| parse_err("pz entry"))?;
+    let (rest, px) = finite_entry(rest).map_err(|_| parse_err("px entry"))?;
+    let (rest, py) = finite_entry(rest).map_err(|_| parse_err("py entry"))?;
+    let (rest, pz) = finite_entry(rest).map_err(|_| parse_err("pz entry"))?;
     let (rest, e) =
-        double_entry(rest).map_err(|_| parse_err("energy entry"))?;
+        finite_entry(rest).map_err(|_| parse_err("energy entry"))?;
     let (rest, _m) = any_entry(rest).map_err(|_| parse_err("mass entry"))?;
     let (rest, status) =
         i32_entry(rest).map_err(|_| parse_err("particle status entry"))?;
@@ -483,15 +483,13 @@ fn extract_weights(record: &str) -> Result<(f64, Vec<f64>, &str), ReadError> {
         let (rest, weights) = count(double_entry, nweights as usize)
             .parse(rest)
             .map_err(|_| parse_err("event weight entries", rest))?;
-        let Some(&weight) = weights.first() else {
-            return Err(FindEntry(
-                "event weight entry",
-                take_chars(record, 100),
-            ));
+        let Some(weight) = weights.first().copied().filter(|w| w.is_finite())
+        else {
+            return Err(parse_err("event weight entry", record));
         };
         (weight, weights, rest)
     } else {
-        let (rest, weight) = double_entry(rest)
+        let (rest, weight) = finite_entry(rest)
             .map_err(|_| parse_err("event weight entry", rest))?;
         (weight, vec![], rest)
     };
@@ -533,6 +531,13 @@ fn parse_weight_names_line<'a>(
         let Some(weight) = weight else {
             return Err(FindWeight(name.to_owned(), names.to_owned()));
         };
+        if !weight.is_finite() {
+            return Err(InvalidEntry {
+                value: weight.to_string(),
+                entry: "named weight entry",
+                record: take_chars(names, 100),
+            });
+        }
         event.add_weight(n64(weight));
     }
     Ok(record)
diff --git a/src/lhef.rs b/src/lhef.rs
index a21dd0f..7582af4 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -24,7 +24,7 @@ use crate::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
         FileIOError, ReadError, Utf8Error, WriteError,
     },
-    parsing::{any_entry, double_entry, i32_entry, non_space},
+    parsing::{any_entry, finite_entry, i32_entry, non_space},
     traits::{Rewind, UpdateWeights},
     util::take_chars,
 };
@@ -246,7 +246,7 @@ impl LHEFParser for Converter {
         let (rest, _idrup) =
             any_entry(rest).map_err(|_| parse_err("IDRUP entry", rest))?;
         let (rest, wt) =
-            double_entry(rest).map_err(|_| parse_err("XWGTUP entry", rest))?;
+            finite_entry(rest).map_err(|_| parse_err("XWGTUP entry", rest))?;
         event.add_weight(n64(wt));
         for line in rest.lines().skip(1).take(nparticles) {
             let (rest, id) =
@@ -262,12 +262,12 @@ impl LHEFParser for Converter {
                 parse_err("entries before particle momentum", rest)
             })?;
             let (rest, px) =
-                double_entry(rest).map_err(|_| parse_err("px entry", rest))?;
+                finite_entry(rest).map_err(|_| parse_err("px entry", rest))?;
             let (rest, py) =
-                double_entry(rest).map_err(|_| parse_err("py entry", rest))?;
+                finite_entry(rest).map_err(|_| parse_err("py entry", rest))?;
             let (rest, pz) =
-                double_entry(rest).map_err(|_| parse_err("py entry", rest))?;
-            let (_, e) = double_entry(rest)
+                finite_entry(rest).map_err(|_| parse_err("py entry", rest))?;
+            let (_, e) = finite_entry(rest)
                 .map_err(|_| parse_err("energy entry", rest))?;
             event.add_outgoing(id, [n64(e), n64(px), n64(py), n64(pz)].into());
         }
diff --git a/src/parsing.rs b/src/parsing.rs
index 56b202d..c889bce 100644
--- a/src/parsing.rs
+++ b/src/parsing.rs
@@ -1,6 +1,7 @@
 use nom::{
     bytes::complete::take_while1,
     character::complete::{i32, space1, u32},
+    combinator::verify,
     number::complete::double,
     sequence::preceded,
     IResult, Parser,
@@ -10,6 +11,10 @@ pub(crate) fn double_entry(line: &str) -> IResult<&str, f64> {
     preceded(space1, double).parse(line)
 }
 
+pub(crate) fn finite_entry(line: &str) -> IResult<&str, f64> {
+    verify(double_entry, |d: &f64| d.is_finite()).parse(line)
+}
+
 pub(crate) fn any_entry(line: &str) -> IResult<&str, &str> {
     preceded(space1, non_space).parse(line)
 }
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 6603da0..6451432 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -13,7 +13,7 @@ use noisy_float::prelude::*;
 use nom::{
     bytes::complete::tag,
     character::complete::{anychar, char, i32, multispace0, space0, space1, u64},
-    combinator::all_consuming,
+    combinator::{all_consuming, verify},
     sequence::preceded,
     IResult, Parser,
 };
@@ -686,5 +686,5 @@ impl UpdateWeights for FileIO {
 }
 
 fn double(input: &str) -> IResult<&str, f64> {
-    nom::number::complete::double(input)
+    verify(nom::number::complete::double, |d: &f64| d.is_finite()).parse(input)
 }
-- 
2.43.0


From 08177a845cb38f764776a24dbd2a4e48cb9fed15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 13/37] fix: do not overwrite input files or other output files

If the output path coincided with an input path, the input was
truncated before reading. If two output paths were identical, the
events from one of the input files were lost.
---
 src/io.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index d5f9011..3e74dc6 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     fs::File,
     io::{BufRead, BufReader},
     path::{Path, PathBuf},
@@ -243,10 +243,42 @@ impl IOBuilder {
             let outfile = sink.as_ref().to_path_buf();
             IOFiles { infile, outfile }
         }));
+        check_outfiles(&files)?;
         CombinedFileIO::new(files, self)
     }
 }
 
+/// Ensure that no input or output file is overwritten by another output file
+fn check_outfiles(files: &[IOFiles]) -> Result<(), FileIOError> {
+    use std::io::{Error, ErrorKind::AlreadyExists};
+
+    let infiles = HashSet::<_>::from_iter(
+        files.iter().filter_map(|f| f.infile.canonicalize().ok()),
+    );
+    let mut outfiles = HashSet::new();
+    for IOFiles { infile, outfile } in files {
+        if outfile.metadata().is_ok_and(|m| !m.is_file()) {
+            // e.g. /dev/null
+            continue;
+        }
+        let is_infile =
+            outfile.canonicalize().is_ok_and(|out| infiles.contains(&out));
+        let msg = if is_infile {
+            "Output would overwrite an input file"
+        } else if !outfiles.insert(outfile) {
+            "Output would overwrite another output file"
+        } else {
+            continue;
+        };
+        return Err(FileIOError::new(
+            infile.clone(),
+            outfile.clone(),
+            CreateError::CreateTarget(Error::new(AlreadyExists, msg)).into(),
+        ));
+    }
+    Ok(())
+}
+
 /// Detect format of an event file
 ///
 /// Defaults to [HepMC2](FileFormat::HepMC2) if not other format can
-- 
2.43.0


From 4d6ea2b577c89e07e31f7c09ddf62797491572f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 14/37] fix: refuse to classify several event files with the
 same name

The events from all but the last of these files were lost.
---
 src/bin/classify-events.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index 176188d..d06bc5d 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -2,12 +2,13 @@ mod opt_classify;
 mod opt_common;
 
 use std::{
+    collections::HashSet,
     fs::{create_dir_all, File},
     io::{BufWriter, Write},
     path::{Path, PathBuf},
 };
 
-use anyhow::{anyhow, Context, Result};
+use anyhow::{anyhow, bail, Context, Result};
 use clap::Parser;
 use cres::{
     compression::{CompressedWriter, Compression},
@@ -68,6 +69,13 @@ fn main() -> Result<()> {
         clustering,
     };
 
+    let mut names = HashSet::new();
+    for file in &opt.infiles {
+        if !names.insert(file.file_name()) {
+            bail!("Output for {file:?} would overwrite other output files");
+        }
+    }
+
     //TODO: code duplication with Cres
     for file in opt.infiles {
         info!("Reading {file:?}");
-- 
2.43.0


From fba31ac01e40f069eb57d4c7b8e4f17f9b6fbaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 15/37] fix: unweighting with negative minimum or vanishing
 final weight sum

This led to a panic and infinite weights, respectively.
---
 src/unweight.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/unweight.rs b/src/unweight.rs
index 1bbf35e..948ba92 100644
--- a/src/unweight.rs
+++ b/src/unweight.rs
@@ -36,7 +36,7 @@ impl<R: Rng> Unweight for Unweighter<R> {
         mut events: Vec<Event>,
     ) -> Result<Vec<Event>, Self::Error> {
         let min_wt = self.min_wt;
-        if min_wt == 0. || events.is_empty() {
+        if min_wt <= 0. || events.is_empty() {
             return Ok(events);
         }
         let orig_wt_sum: N64 = events.par_iter().map(|e| e.weight()).sum();
@@ -64,6 +64,10 @@ impl<R: Rng> Unweight for Unweighter<R> {
 
         // rescale to ensure that the sum of weights is preserved exactly
         let final_wt_sum: N64 = events.par_iter().map(|e| e.weight()).sum();
+        if final_wt_sum == 0. {
+            // impossible to restore the original sum of weights
+            return Ok(events);
+        }
         let reweight = orig_wt_sum / final_wt_sum;
         events
             .par_iter_mut()
-- 
2.43.0


From c7149d041a0a266f5e0d50baa2658e7b7d45f679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 16/37] fix: pass event weights to custom C distance functions

The pointer to the weights did not point to the actual weights.
---
 src/c_api/distance.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/c_api/distance.rs b/src/c_api/distance.rs
index 5f24104..32d71a5 100644
--- a/src/c_api/distance.rs
+++ b/src/c_api/distance.rs
@@ -39,23 +39,25 @@ unsafe impl Sync for DistanceFn {}
 impl Distance for DistanceFn {
     fn distance(&self, ev1: &Event, ev2: &Event) -> N64 {
         trace!("Compute distance between {:?} and {:?}", ev1, ev2);
+        let weights1 = extract_weights(ev1);
         let type_sets1 = extract_typesets(ev1);
         let type_set_views1: Vec<_> =
             type_sets1.iter().map(TypeSet::view).collect();
         let event_view1 = EventView {
             id: ev1.id(),
-            weights: ev1.weights.data_ptr() as *const f64,
-            n_weights: ev1.n_weights(),
+            weights: weights1.as_ptr(),
+            n_weights: weights1.len(),
             type_sets: type_set_views1.as_ptr(),
             n_type_sets: type_set_views1.len(),
         };
+        let weights2 = extract_weights(ev2);
         let type_sets2 = extract_typesets(ev2);
         let type_set_views2: Vec<_> =
             type_sets2.iter().map(TypeSet::view).collect();
         let event_view2 = EventView {
             id: ev2.id(),
-            weights: ev2.weights.data_ptr() as *const f64,
-            n_weights: ev2.n_weights(),
+            weights: weights2.as_ptr(),
+            n_weights: weights2.len(),
             type_sets: type_set_views2.as_ptr(),
             n_type_sets: type_set_views2.len(),
         };
@@ -64,6 +66,10 @@ impl Distance for DistanceFn {
     }
 }
 
+fn extract_weights(ev: &Event) -> Vec<c_double> {
+    ev.weights.read().iter().map(|&w| w.into()).collect()
+}
+
 fn extract_typesets(ev: &Event) -> Vec<TypeSet> {
     ev.outgoing()
         .iter()
-- 
2.43.0


From e52796c41224b9a8fa263b8c259b03377cee9d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:48 +0000
Subject: [PATCH 17/37] fix: report insufficient number of events for partition

Instead of an error, there was a panic if the number of negative-weight
events was only slightly larger than the number of regions.
---
 src/bin/partition.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bin/partition.rs b/src/bin/partition.rs
index 33fcba8..1b4c225 100644
--- a/src/bin/partition.rs
+++ b/src/bin/partition.rs
@@ -78,9 +78,11 @@ fn main() -> Result<()> {
         }
     }
 
-    if (opt.regions as usize) > events.len() {
+    // each bisection needs a vantage point and another event outside
+    let min_events = std::cmp::max(3 * opt.regions as usize / 2 - 1, 1);
+    if min_events > events.len() {
         bail!(
-            "Number of negative-weight events ({}) must be at least as large as number of regions ({})",
+            "Number of negative-weight events ({}) must be at least {min_events} for {} regions",
             events.len(),
             opt.regions,
         )
-- 
2.43.0


From 6f6ec4afc02c54a893d062cbebcf78df6fceec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 18/37] fix: validate lepton and photon options for
 partitioning

Incomplete definitions were ignored or led to a panic.
---
 src/bin/partition.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/bin/partition.rs b/src/bin/partition.rs
index 1b4c225..b8dec8d 100644
--- a/src/bin/partition.rs
+++ b/src/bin/partition.rs
@@ -32,7 +32,7 @@ fn main() -> Result<()> {
     )
     .with_context(|| "Failed to read argument file")?;
     let opt = Opt::parse_from(args);
-    // TODO: validate!
+    validate(&opt)?;
 
     let env = Env::default().filter_or("CRES_LOG", &opt.loglevel);
     env_logger::init_from_env(env);
@@ -128,6 +128,23 @@ fn main() -> Result<()> {
     Ok(())
 }
 
+fn validate(opt: &Opt) -> Result<()> {
+    let lepton = &opt.lepton_def;
+    match (
+        lepton.leptonalgorithm,
+        lepton.leptonradius,
+        lepton.leptonpt,
+    ) {
+        (Some(_), Some(_), Some(_)) | (None, None, None) => {}
+        _ => bail!("Either all or none of --leptonalgorithm, --leptonradius, --leptonpt have to be set"),
+    }
+    let photon = &opt.photon_def;
+    match (photon.photonefrac, photon.photonradius, photon.photonpt) {
+        (Some(_), Some(_), Some(_)) | (None, None, None) => Ok(()),
+        _ => bail!("Either all or none of --photonefrac, --photonradius, --photonpt have to be set"),
+    }
+}
+
 /// Logarithm in base 2, rounded down
 pub const fn log2(n: u32) -> u32 {
     u32::BITS - n.leading_zeros() - 1
-- 
2.43.0


From 7551862ad7bd6a8a9aa7485c8da7b3b956d94806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 19/37] fix: read compressed partition files

---
 src/bin/classify-events.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index d06bc5d..7e893f8 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -4,11 +4,12 @@ mod opt_common;
 use std::{
     collections::HashSet,
     fs::{create_dir_all, File},
-    io::{BufWriter, Write},
+    io::{BufReader, BufWriter, Write},
     path::{Path, PathBuf},
 };
 
 use anyhow::{anyhow, bail, Context, Result};
+use audec::auto_decompress;
 use clap::Parser;
 use cres::{
     compression::{CompressedWriter, Compression},
@@ -52,6 +53,7 @@ fn main() -> Result<()> {
         .with_context(|| format!("Failed to open {part_file:?}"))?;
     type PartInfo =
         (DefaultClustering, VPTreePartition<Event, EuclWithScaledPt>);
+    let part_info = auto_decompress(BufReader::new(part_info));
     let (clustering, partitions): PartInfo = serde_yaml::from_reader(part_info)
         .with_context(|| {
             format!("Failed to read partition information from {part_file:?}")
-- 
2.43.0


From 8b5e8148319aa4b81648a93020c9d9113477b4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 20/37] fix: report incomplete event at the end of Les Houches
 Event Files

A truncated last event was dropped silently.
---
 src/lhef.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lhef.rs b/src/lhef.rs
index 7582af4..b0157b8 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -51,7 +51,16 @@ impl FileReader {
         let mut record = Vec::new();
         while !record.ends_with(b"</event>") {
             match self.source.read_until(b'>', &mut record) {
-                Ok(0) => return None, // TODO: check incomplete record
+                Ok(0) => {
+                    let record = String::from_utf8_lossy(&record);
+                    if !record.trim_start().starts_with("<event") {
+                        return None;
+                    }
+                    return Some(Err(ReadError::FindEntry(
+                        "end of event",
+                        take_chars(&record, 100),
+                    )));
+                }
                 Ok(_) => {}
                 Err(err) => return Some(Err(err.into())),
             }
-- 
2.43.0


From 933dcf8a6ecc5d5537bd90621457b0e6a250116f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:21 +0000
Subject: [PATCH 21/37] fix: first digit of STRIPPER XML momenta without
 leading space

---
 src/stripper_xml.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 6451432..f1dd02f 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -12,7 +12,7 @@ use log::{debug, trace};
 use noisy_float::prelude::*;
 use nom::{
     bytes::complete::tag,
-    character::complete::{anychar, char, i32, multispace0, space0, space1, u64},
+    character::complete::{char, i32, multispace0, space0, space1, u64},
     combinator::{all_consuming, verify},
     sequence::preceded,
     IResult, Parser,
@@ -602,8 +602,7 @@ impl StripperXmlParser for Converter {
             let (r, _) = tag("\">").parse(r).map_err(|_err: NomErr<'_>| {
                 Error::IncompleteTag("<p>", take_chars(r, 100))
             })?;
-            let (r, p) = preceded(anychar, particle_momentum)
-                .parse(r)
+            let (r, p) = particle_momentum(r)
                 .map_err(|_| parse_err("particle momentum entry", r))?;
             event.add_outgoing(pid, p);
             (rest, _) = tag("</p>").parse(r).map_err(|_err: NomErr<'_>| {
@@ -639,7 +638,7 @@ fn particle_id(line: &str) -> IResult<&str, ParticleID> {
 
 fn particle_momentum(line: &str) -> IResult<&str, FourVector> {
     let (rest, p) = (
-        space0,
+        multispace0,
         double,
         char(','),
         double,
@@ -647,7 +646,7 @@ fn particle_momentum(line: &str) -> IResult<&str, FourVector> {
         double,
         char(','),
         double,
-        space0,
+        multispace0,
     )
         .parse(line)?;
     Ok((rest, [n64(p.1), n64(p.3), n64(p.5), n64(p.7)].into()))
-- 
2.43.0


From 19b930514416aca11b4cb822db1b65f62c58950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:36 +0000
Subject: [PATCH 22/37] fix: never overwrite input files in
 cres-classify-events and cres-partition

Also take into account that the names of output files for different
regions of different input files may coincide.
---
 src/bin/classify-events.rs | 66 +++++++++++++++++++++++++++-----------
 src/bin/partition.rs       | 12 ++++++-
 2 files changed, 59 insertions(+), 19 deletions(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index 7e893f8..7fd4310 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -71,12 +71,12 @@ fn main() -> Result<()> {
         clustering,
     };
 
-    let mut names = HashSet::new();
-    for file in &opt.infiles {
-        if !names.insert(file.file_name()) {
-            bail!("Output for {file:?} would overwrite other output files");
-        }
-    }
+    check_outfiles(
+        &opt.infiles,
+        &part_file,
+        &classifier.outdir,
+        classifier.partitions.len(),
+    )?;
 
     //TODO: code duplication with Cres
     for file in opt.infiles {
@@ -246,12 +246,40 @@ fn get_footer(format: FileFormat) -> &'static str {
     }
 }
 
-fn make_byte_writers(
+/// Ensure that no input or output file is overwritten by another output file
+fn check_outfiles(
+    infiles: &[PathBuf],
+    part_file: &Path,
+    outdir: &Path,
+    nregions: usize,
+) -> Result<()> {
+    let protected = HashSet::<_>::from_iter(
+        infiles
+            .iter()
+            .map(PathBuf::as_path)
+            .chain([part_file])
+            .filter_map(|f| f.canonicalize().ok()),
+    );
+    let mut outnames = HashSet::new();
+    for file in infiles {
+        for outname in make_outnames(nregions, outdir, file)? {
+            if outname.canonicalize().is_ok_and(|o| protected.contains(&o)) {
+                bail!("Output {outname:?} would overwrite an input file");
+            }
+            if outnames.contains(&outname) {
+                bail!("Output for {file:?} would overwrite other output file {outname:?}");
+            }
+            outnames.insert(outname);
+        }
+    }
+    Ok(())
+}
+
+fn make_outnames(
     n: usize,
     outdir: &Path,
     file: &Path,
-    compression: Option<Compression>,
-) -> Result<Vec<CompressedWriter<BufWriter<File>>>> {
+) -> Result<Vec<PathBuf>> {
     let filename = file
         .file_name()
         .ok_or_else(|| anyhow!("Failed to extract filename from {file:?}"))?;
@@ -260,18 +288,20 @@ fn make_byte_writers(
         .ok_or_else(|| anyhow!("Failed to convert {filename:?} to a string"))?;
     let (prefix, suffix) = file.split_once('.').unwrap_or((file, ""));
 
-    let make_outname = |i| {
-        PathBuf::from_iter([
-            outdir,
-            PathBuf::from(format!("{prefix}.{i}.{suffix}")).as_path(),
-        ])
-    };
+    let make_outname = |i| outdir.join(format!("{prefix}.{i}.{suffix}"));
+    Ok((0..n).map(make_outname).collect())
+}
 
+fn make_byte_writers(
+    n: usize,
+    outdir: &Path,
+    file: &Path,
+    compression: Option<Compression>,
+) -> Result<Vec<CompressedWriter<BufWriter<File>>>> {
     let mut res = Vec::with_capacity(n);
-    for i in 0..n {
-        let outname = make_outname(i);
+    for (i, outname) in make_outnames(n, outdir, file)?.iter().enumerate() {
         debug!("Events in region {i} will be written to {outname:?}");
-        let outfile = File::create(&outname)
+        let outfile = File::create(outname)
             .with_context(|| format!("Failed to create {outname:?}"))?;
         let out = BufWriter::new(outfile);
         let out = CompressedWriter::new(out, compression)
diff --git a/src/bin/partition.rs b/src/bin/partition.rs
index b8dec8d..3598218 100644
--- a/src/bin/partition.rs
+++ b/src/bin/partition.rs
@@ -62,6 +62,17 @@ fn main() -> Result<()> {
         clustering = clustering.with_photon_def(opt.photon_def.into())
     }
 
+    let outfile = opt.outfile;
+    if let Ok(out) = outfile.canonicalize() {
+        if opt
+            .infiles
+            .iter()
+            .any(|f| f.canonicalize().is_ok_and(|f| f == out))
+        {
+            bail!("Output {outfile:?} would overwrite an input file");
+        }
+    }
+
     // TODO: in principle we only need the kinematic part
     let mut events = Vec::new();
     for file in opt.infiles {
@@ -115,7 +126,6 @@ fn main() -> Result<()> {
     let partition = unsafe { VPTreePartition::from_vp(tree, distance) };
     trace!("Partition: {partition:#?}");
 
-    let outfile = opt.outfile;
     info!("Writing to {outfile:?}");
     let out = File::create(&outfile)
         .with_context(|| format!("Failed to open {outfile:?}"))?;
-- 
2.43.0


From de8b9937030b001e0d47df844300042cd6b960d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:59 +0000
Subject: [PATCH 23/37] fix: reject numbers followed by other characters

For example, 1.5D-03 was read as 1.5.
---
 src/parsing.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/parsing.rs b/src/parsing.rs
index c889bce..7b3c36f 100644
--- a/src/parsing.rs
+++ b/src/parsing.rs
@@ -1,14 +1,14 @@
 use nom::{
     bytes::complete::take_while1,
     character::complete::{i32, space1, u32},
-    combinator::verify,
+    combinator::{not, verify},
     number::complete::double,
-    sequence::preceded,
+    sequence::{preceded, terminated},
     IResult, Parser,
 };
 
 pub(crate) fn double_entry(line: &str) -> IResult<&str, f64> {
-    preceded(space1, double).parse(line)
+    preceded(space1, complete_entry(double)).parse(line)
 }
 
 pub(crate) fn finite_entry(line: &str) -> IResult<&str, f64> {
@@ -20,11 +20,18 @@ pub(crate) fn any_entry(line: &str) -> IResult<&str, &str> {
 }
 
 pub(crate) fn u32_entry(line: &str) -> IResult<&str, u32> {
-    preceded(space1, u32).parse(line)
+    preceded(space1, complete_entry(u32)).parse(line)
 }
 
 pub(crate) fn i32_entry(line: &str) -> IResult<&str, i32> {
-    preceded(space1, i32).parse(line)
+    preceded(space1, complete_entry(i32)).parse(line)
+}
+
+// parse an entry without any trailing characters
+fn complete_entry<'a, T>(
+    entry: impl Parser<&'a str, Output = T, Error = nom::error::Error<&'a str>>,
+) -> impl Parser<&'a str, Output = T, Error = nom::error::Error<&'a str>> {
+    terminated(entry, not(non_space))
 }
 
 pub(crate) fn non_space(line: &str) -> IResult<&str, &str> {
-- 
2.43.0


From 9671f7cfce1dc28f2c0139193d9131cacfdc2777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:18 +0000
Subject: [PATCH 24/37] fix: report incomplete or damaged STRIPPER XML event
 records

---
 src/stripper_xml.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index f1dd02f..b7bcbef 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -566,8 +566,9 @@ impl StripperXmlParser for Converter {
         let (rest, _start) = weight_start(record)
             .map_err(|_| parse_err("start of event record", record))?;
 
-        let (rest, weight) =
-            double(rest).map_err(|_| parse_err("weight entry", rest))?;
+        let (rest, (weight, _)) = (double, char('"'))
+            .parse(rest)
+            .map_err(|_| parse_err("weight entry", rest))?;
 
         // TODO: it might be best to do the weight rescaling here, but
         // the Converter doesn't have that information
@@ -612,6 +613,21 @@ impl StripperXmlParser for Converter {
 
         // TODO: multiple weights
 
+        // ensure that the record is complete and no particle was missed
+        if rest.contains("</p>") {
+            return Err(UnrecognisedEntry(
+                "event record entry",
+                take_chars(rest, 100),
+            ));
+        }
+        if rest.matches("</se>").count() != 1 {
+            return Err(Error::UnclosedTag(
+                "<se".to_string(),
+                take_chars(record, 100),
+            )
+            .into());
+        }
+
         Ok(event.build())
     }
 }
-- 
2.43.0


From 2c25515c8be282b6d4abc40a93bc3b35174f4c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:39 +0000
Subject: [PATCH 25/37] fix: report Les Houches events without closing tag

---
 src/lhef.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lhef.rs b/src/lhef.rs
index b0157b8..ea49a84 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -248,6 +248,10 @@ impl LHEFParser for Converter {
             return Err(FindEntry("line break", record.to_string()));
         };
         record = &record[(1 + line_end)..];
+        // ensure that we didn't miss the end of the event
+        if record.lines().any(starts_event) {
+            return Err(FindEntry("end of event", take_chars(record, 100)));
+        }
         let (rest, nparticles): (_, u32) =
             u32_entry0(record).map_err(|_| parse_err("NUP entry", record))?;
         let nparticles = nparticles as usize;
@@ -323,6 +327,12 @@ impl UpdateWeights for FileIO {
     }
 }
 
+fn starts_event(line: &str) -> bool {
+    line.trim_start()
+        .strip_prefix("<event")
+        .is_some_and(|rest| rest.starts_with(['>', ' ', '\t']))
+}
+
 fn non_weight_entries(record: &str) -> IResult<&str, &str> {
     let record = record.trim_start();
     let (rest, _) = (take_until("\n"), char('\n')).parse(record)?;
-- 
2.43.0


From a92c6ad1ba7701882a0f69c510afc5f8c4caeff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:46 +0000
Subject: [PATCH 26/37] fix: don't trust the announced number of events

---
 src/cres.rs         | 5 ++++-
 src/io.rs           | 4 ++--
 src/stripper_xml.rs | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cres.rs b/src/cres.rs
index 30dfc29..faaa90b 100644
--- a/src/cres.rs
+++ b/src/cres.rs
@@ -239,7 +239,10 @@ where
             info!("Reading events");
             ProgressBar::default()
         };
-        let events = Mutex::new(Vec::with_capacity(expected_nevents));
+        // the announced number of events can be arbitrarily wrong
+        const MAX_PREALLOC: usize = 1 << 20;
+        let events =
+            Mutex::new(Vec::with_capacity(expected_nevents.min(MAX_PREALLOC)));
         {
             let converter = &self.converter;
             let clustering = &self.clustering;
diff --git a/src/io.rs b/src/io.rs
index 3e74dc6..1d3ce0d 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -567,10 +567,10 @@ fn combine_size_hints(
     mut h: (usize, Option<usize>),
     g: (usize, Option<usize>),
 ) -> (usize, Option<usize>) {
-    h.0 += g.0;
+    h.0 = h.0.saturating_add(g.0);
     h.1 = match (h.1, g.1) {
         (None, _) | (_, None) => None,
-        (Some(h), Some(g)) => Some(h + g),
+        (Some(h), Some(g)) => h.checked_add(g),
     };
     h
 }
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index b7bcbef..fd2eca5 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -318,7 +318,7 @@ where
                     }
                     XMLTag::Eventrecord { name, nevents, .. } => {
                         let entry = rescale.entry(name).or_default();
-                        entry.1 += nevents;
+                        entry.1 = entry.1.saturating_add(nevents);
                         event_files.push((path.to_owned(), out))
                     }
                 }
-- 
2.43.0


From 5f49ed953cb804bd5805edaa3688b6eccbaca098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:03 +0000
Subject: [PATCH 27/37] fix: report STRIPPER XML particles without closing tag

---
 src/stripper_xml.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index fd2eca5..c1ae935 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -586,7 +586,9 @@ impl StripperXmlParser for Converter {
                 .map_err(|_| parse_err("particle status entry", r))?;
 
             if status != STATUS_OUTGOING {
-                let Some(particle_end) = r.find("</p>") else {
+                let particle_end =
+                    r.find('<').filter(|&pos| r[pos..].starts_with("</p>"));
+                let Some(particle_end) = particle_end else {
                     return Err(Error::UnclosedTag(
                         "<p".to_string(),
                         take_chars(rest, 100),
-- 
2.43.0


From ceee0398132a0431eba7c05354d60c4b657654a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:29 +0000
Subject: [PATCH 28/37] fix: report STRIPPER XML particles with a damaged id
 attribute

---
 src/stripper_xml.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index c1ae935..d8e00bc 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -13,7 +13,7 @@ use noisy_float::prelude::*;
 use nom::{
     bytes::complete::tag,
     character::complete::{char, i32, multispace0, space0, space1, u64},
-    combinator::{all_consuming, verify},
+    combinator::{all_consuming, peek, verify},
     sequence::preceded,
     IResult, Parser,
 };
@@ -645,7 +645,8 @@ fn particle_start(line: &str) -> IResult<&str, &str> {
 }
 
 fn particle_status(line: &str) -> IResult<&str, i32> {
-    let (rest, parsed) = (space0, tag("id=\""), i32).parse(line)?;
+    let (rest, parsed) =
+        (space0, tag("id=\""), i32, peek(char(','))).parse(line)?;
     Ok((rest, parsed.2))
 }
 
-- 
2.43.0


From 6271731e83d45f6a8b83d637463ec0cd2edbf224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 29/37] fix: report repeated HepMC weight names instead of
 panicking

---
 src/hepmc2.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 76ca62e..0af6d21 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -297,7 +297,13 @@ impl HepMCParser for Converter {
                 Some(b'N') => {}
                 #[cfg(feature = "multiweight")]
                 Some(b'N') => {
-                    missing_weight = None;
+                    let is_first = missing_weight.take().is_some();
+                    if !is_first && !self.weight_names().is_empty() {
+                        return Err(UnrecognisedEntry(
+                            "second list of weight names",
+                            take_chars(record, 100),
+                        ));
+                    }
                     record = parse_weight_names_line(
                         self, record, &_weights, &mut event,
                     )?
-- 
2.43.0


From 8654cabdcd61f58e4a22c13fc599a29fa9ecf190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 30/37] fix: also protect normalisation files and linked output
 files from being overwritten

---
 src/bin/classify-events.rs | 10 +++++++---
 src/io.rs                  | 27 ++++++++++++++++++---------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index 7fd4310..9f09494 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -263,13 +263,17 @@ fn check_outfiles(
     let mut outnames = HashSet::new();
     for file in infiles {
         for outname in make_outnames(nregions, outdir, file)? {
-            if outname.canonicalize().is_ok_and(|o| protected.contains(&o)) {
+            if outname.metadata().is_ok_and(|m| !m.is_file()) {
+                // e.g. /dev/null
+                continue;
+            }
+            let out = outname.canonicalize().unwrap_or(outname.clone());
+            if protected.contains(&out) {
                 bail!("Output {outname:?} would overwrite an input file");
             }
-            if outnames.contains(&outname) {
+            if !outnames.insert(out) {
                 bail!("Output for {file:?} would overwrite other output file {outname:?}");
             }
-            outnames.insert(outname);
         }
     }
     Ok(())
diff --git a/src/io.rs b/src/io.rs
index 1d3ce0d..82809ef 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -216,22 +216,27 @@ impl IOBuilder {
         P: AsRef<Path>,
         Q: AsRef<Path>,
     {
+        let files = Vec::from_iter(files);
+        let infiles = Vec::from_iter(
+            files.iter().map(|(source, _)| source.as_ref().to_path_buf()),
+        );
         #[cfg(feature = "stripper-xml")]
         {
             let (files, scaling) = crate::stripper_xml::extract_scaling(files)?;
 
             let mut builder = self;
             builder.scaling = scaling;
-            Ok(builder.build_from_files_iter_known_scaling(files)?)
+            Ok(builder.build_from_files_iter_known_scaling(files, &infiles)?)
         }
 
         #[cfg(not(feature = "stripper-xml"))]
-        Ok(self.build_from_files_iter_known_scaling(files)?)
+        Ok(self.build_from_files_iter_known_scaling(files, &infiles)?)
     }
 
     fn build_from_files_iter_known_scaling<I, P, Q>(
         self,
         files: I,
+        infiles: &[PathBuf],
     ) -> Result<CombinedFileIO, FileIOError>
     where
         I: IntoIterator<Item = (P, Q)>,
@@ -243,17 +248,22 @@ impl IOBuilder {
             let outfile = sink.as_ref().to_path_buf();
             IOFiles { infile, outfile }
         }));
-        check_outfiles(&files)?;
+        check_outfiles(&files, infiles)?;
         CombinedFileIO::new(files, self)
     }
 }
 
 /// Ensure that no input or output file is overwritten by another output file
-fn check_outfiles(files: &[IOFiles]) -> Result<(), FileIOError> {
+///
+/// `infiles` are all input files, including those without output
+fn check_outfiles(
+    files: &[IOFiles],
+    infiles: &[PathBuf],
+) -> Result<(), FileIOError> {
     use std::io::{Error, ErrorKind::AlreadyExists};
 
     let infiles = HashSet::<_>::from_iter(
-        files.iter().filter_map(|f| f.infile.canonicalize().ok()),
+        infiles.iter().filter_map(|f| f.canonicalize().ok()),
     );
     let mut outfiles = HashSet::new();
     for IOFiles { infile, outfile } in files {
@@ -261,11 +271,10 @@ fn check_outfiles(files: &[IOFiles]) -> Result<(), FileIOError> {
             // e.g. /dev/null
             continue;
         }
-        let is_infile =
-            outfile.canonicalize().is_ok_and(|out| infiles.contains(&out));
-        let msg = if is_infile {
+        let out = outfile.canonicalize().unwrap_or(outfile.clone());
+        let msg = if infiles.contains(&out) {
             "Output would overwrite an input file"
-        } else if !outfiles.insert(outfile) {
+        } else if !outfiles.insert(out) {
             "Output would overwrite another output file"
         } else {
             continue;
-- 
2.43.0


From a48ad7ce93e45c23b3ba4b51bcafb51f54d210ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:43 +0000
Subject: [PATCH 31/37] fix: reject numeric options which are not numbers

'--minweight nan' or 'inf' led to a panic after the output files had been
created, and the program did not end with '--ptweight nan' or 'inf'.
---
 src/bin/opt_common.rs    | 32 +++++++++++++++++++++++++-------
 src/bin/opt_cres.rs      |  6 +++---
 src/bin/opt_partition.rs |  2 +-
 3 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/bin/opt_common.rs b/src/bin/opt_common.rs
index fe0c5a0..b8170b4 100644
--- a/src/bin/opt_common.rs
+++ b/src/bin/opt_common.rs
@@ -80,6 +80,24 @@ pub(crate) fn parse_compr(s: &str) -> Result<Compression, ParseCompressionErr> {
     }
 }
 
+/// Parse a number, which may be infinite
+pub(crate) fn parse_number(s: &str) -> Result<f64, String> {
+    match s.parse::<f64>() {
+        Ok(x) if x.is_nan() => Err("has to be a number".to_string()),
+        Ok(x) => Ok(x),
+        Err(err) => Err(err.to_string()),
+    }
+}
+
+/// Parse a finite number
+#[allow(dead_code)] // not used by all programs
+pub(crate) fn parse_finite(s: &str) -> Result<f64, String> {
+    match parse_number(s)? {
+        x if x.is_finite() => Ok(x),
+        _ => Err("has to be finite".to_string()),
+    }
+}
+
 #[derive(Debug, Copy, Clone, Parser)]
 pub(crate) struct JetDefinition {
     /// Jet algorithm.
@@ -90,9 +108,9 @@ pub(crate) struct JetDefinition {
     )]
     pub jetalgorithm: JetAlgorithm,
     /// Jet radius parameter.
-    #[clap(short = 'R', long)]
+    #[clap(short = 'R', long, value_parser = parse_number)]
     pub jetradius: f64,
-    #[clap(short = 'p', long)]
+    #[clap(short = 'p', long, value_parser = parse_number)]
     /// Minimum jet transverse momentum in GeV.
     pub jetpt: f64,
 }
@@ -116,9 +134,9 @@ pub(crate) struct LeptonDefinition {
     )]
     pub leptonalgorithm: Option<JetAlgorithm>,
     /// Lepton radius parameter.
-    #[clap(long)]
+    #[clap(long, value_parser = parse_number)]
     pub leptonradius: Option<f64>,
-    #[clap(long)]
+    #[clap(long, value_parser = parse_number)]
     /// Minimum lepton transverse momentum in GeV.
     pub leptonpt: Option<f64>,
 }
@@ -136,13 +154,13 @@ impl From<LeptonDefinition> for cres::cluster::JetDefinition {
 #[derive(Debug, Copy, Clone, Parser)]
 pub(crate) struct PhotonDefinition {
     /// Minimum fraction of photon transverse energy in GeV.
-    #[clap(long)]
+    #[clap(long, value_parser = parse_number)]
     pub photonefrac: Option<f64>,
     /// Photon radius parameter.
-    #[clap(long)]
+    #[clap(long, value_parser = parse_number)]
     pub photonradius: Option<f64>,
     /// Minimum photon transverse momentum in GeV.
-    #[clap(long)]
+    #[clap(long, value_parser = parse_number)]
     pub photonpt: Option<f64>,
 }
 
diff --git a/src/bin/opt_cres.rs b/src/bin/opt_cres.rs
index 2d08982..dd14019 100644
--- a/src/bin/opt_cres.rs
+++ b/src/bin/opt_cres.rs
@@ -40,7 +40,7 @@ pub(crate) enum Search {
 #[derive(Debug, Default, Copy, Clone, Parser)]
 pub(crate) struct UnweightOpt {
     /// Weight below which events are unweighted. '0' means no unweighting.
-    #[clap(short = 'w', long, default_value = "0.")]
+    #[clap(short = 'w', long, default_value = "0.", value_parser = parse_finite)]
     pub(crate) minweight: f64,
 
     /// Random number generator seed for unweighting.
@@ -75,7 +75,7 @@ pub(crate) struct Opt {
     pub(crate) unweight: UnweightOpt,
 
     /// Weight of transverse momentum when calculating particle momentum distances.
-    #[clap(long, default_value = "0.")]
+    #[clap(long, default_value = "0.", value_parser = parse_finite)]
     pub(crate) ptweight: f64,
 
     // TODO: make this option work again
@@ -132,7 +132,7 @@ variable."
     /// Limiting the cell size ensures that event weights are only
     /// redistributed between events that are sufficiently similar.
     /// The downside is that not all negative weights may be cancelled.
-    #[clap(long)]
+    #[clap(long, value_parser = parse_number)]
     pub(crate) max_cell_size: Option<f64>,
 
     /// Comma-separated list of weights to include in the resampling
diff --git a/src/bin/opt_partition.rs b/src/bin/opt_partition.rs
index 2572155..d1de662 100644
--- a/src/bin/opt_partition.rs
+++ b/src/bin/opt_partition.rs
@@ -65,7 +65,7 @@ variable."
     pub(crate) threads: usize,
 
     /// Weight of transverse momentum when calculating particle momentum distances.
-    #[clap(long, default_value = "0.")]
+    #[clap(long, default_value = "0.", value_parser = parse_finite)]
     pub(crate) ptweight: f64,
 }
 
-- 
2.43.0


From 580593eeb5976fef21100bdf84f2240024e566d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:00 +0000
Subject: [PATCH 32/37] fix: report requested weights in formats without named
 weights

Weight names requested for Les Houches and STRIPPER XML events were
silently ignored, and led to a panic in combination with HepMC events with
named weights.
---
 src/lhef.rs         | 5 +++++
 src/stripper_xml.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/lhef.rs b/src/lhef.rs
index ea49a84..dd9e248 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -243,6 +243,11 @@ impl LHEFParser for Converter {
             |entry, record: &str| ParseEntry(entry, take_chars(record, 100));
 
         // TODO: multiple weights
+        #[cfg(feature = "multiweight")]
+        if let Some(name) = self.weight_names().first() {
+            return Err(FindWeight(name.clone(), "no names".to_owned()));
+        }
+
         record = record.trim_start();
         let Some(line_end) = record.find('\n') else {
             return Err(FindEntry("line break", record.to_string()));
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index d8e00bc..2005562 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -561,6 +561,11 @@ impl StripperXmlParser for Converter {
 
         const STATUS_OUTGOING: i32 = 0;
 
+        #[cfg(feature = "multiweight")]
+        if let Some(name) = self.weight_names().first() {
+            return Err(FindWeight(name.clone(), "no names".to_owned()));
+        }
+
         let mut event = EventBuilder::new();
 
         let (rest, _start) = weight_start(record)
-- 
2.43.0


From 54d863c8ae54ab210bc3bd06929d0d0c3e581721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:26 +0000
Subject: [PATCH 33/37] fix: report input paths without a file name instead of
 panicking

---
 src/bin/main.rs   | 17 +++++++++--------
 src/c_api/cres.rs | 16 +++++++++-------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/bin/main.rs b/src/bin/main.rs
index 0c7f46a..1b2c8c0 100644
--- a/src/bin/main.rs
+++ b/src/bin/main.rs
@@ -9,7 +9,7 @@ use std::path::PathBuf;
 use crate::opt_cres::{Opt, Search};
 use crate::opt_cres_validate::validate;
 
-use anyhow::{Context, Result};
+use anyhow::{bail, Context, Result};
 use clap::Parser;
 use cres::cluster::DefaultClustering;
 use cres::io::{Converter, IOBuilder};
@@ -72,13 +72,14 @@ where
     event_io.compression(opt.compression);
 
     create_dir_all(&opt.outdir)?;
-    let files = opt.infiles.into_iter().map(|f| {
-        let out = PathBuf::from_iter([
-            opt.outdir.as_os_str(),
-            f.file_name().unwrap(),
-        ]);
-        (f, out)
-    });
+    let mut files = Vec::with_capacity(opt.infiles.len());
+    for f in opt.infiles {
+        let Some(name) = f.file_name() else {
+            bail!("Input {f:?} has no file name")
+        };
+        let out = PathBuf::from_iter([opt.outdir.as_os_str(), name]);
+        files.push((f, out));
+    }
     let event_io = event_io.build_from_files_iter(files)?;
 
     let cell_collector = None;
diff --git a/src/c_api/cres.rs b/src/c_api/cres.rs
index 353f85e..d705ad5 100644
--- a/src/c_api/cres.rs
+++ b/src/c_api/cres.rs
@@ -17,9 +17,9 @@ use std::ffi::{CStr, OsStr};
 use std::fs::create_dir_all;
 use std::os::raw::{c_char, c_double};
 use std::os::unix::ffi::OsStrExt;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 
-use anyhow::{anyhow, Error};
+use anyhow::{anyhow, bail, Error};
 use log::debug;
 use noisy_float::prelude::*;
 
@@ -180,11 +180,13 @@ where
     debug!("Will write output to {:?}", outdir);
     create_dir_all(outdir)?;
 
-    let files = infiles.into_iter().map(|f| {
-        let out =
-            PathBuf::from_iter([outdir, PathBuf::from(f).file_name().unwrap()]);
-        (f, out)
-    });
+    let mut files = Vec::with_capacity(infiles.len());
+    for f in infiles {
+        let Some(name) = Path::new(f).file_name() else {
+            bail!("Input {f:?} has no file name")
+        };
+        files.push((f, PathBuf::from_iter([outdir, name])));
+    }
 
     // TODO: multiple weights, output compression
     let event_io = IOBuilder::default().build_from_files_iter(files)?;
-- 
2.43.0


From 6d2119f45323234d8990cd4821796ceb1decb22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:25 +0000
Subject: [PATCH 34/37] fix: cells of previous runs were duplicated by
 resampling with several threads

Each thread started from a copy of the collected cells, so that combining
them counted cells from previous runs repeatedly.
---
 src/cell_collector.rs |  8 ++++++++
 src/resampler.rs      | 16 ++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/cell_collector.rs b/src/cell_collector.rs
index c04de1f..a96ca78 100644
--- a/src/cell_collector.rs
+++ b/src/cell_collector.rs
@@ -169,6 +169,14 @@ impl CellCollector {
             "combining {} + {} cell observations",
             self.count, other.count
         );
+        let nmissing = NCELLS.saturating_sub(self.first.len());
+        self.first.extend(
+            other
+                .first
+                .into_iter()
+                .take(nmissing)
+                .map(|(id, ev)| (id + self.count, ev)),
+        );
         self.largest_by_members.extend(
             other
                 .largest_by_members
diff --git a/src/resampler.rs b/src/resampler.rs
index 29d93d7..33b0d6d 100644
--- a/src/resampler.rs
+++ b/src/resampler.rs
@@ -391,7 +391,7 @@ impl ObserveCell for Observer {
         );
         let mut data = self
             .threaded
-            .get_or(|| RefCell::new(self.central.clone()))
+            .get_or(|| RefCell::new(self.central.for_thread()))
             .borrow_mut();
         data.cell_radii.push(cell.radius());
         if cell.weight_sum() < 0. {
@@ -410,7 +410,8 @@ impl ObserveCell for Observer {
             .into_iter()
             .map(|c| c.into_inner())
             .reduce(|acc, c| acc.combine(c));
-        if let Some(mut res) = res {
+        if let Some(res) = res {
+            let mut res = std::mem::take(&mut self.central).combine(res);
             info!("Created {} cells", res.cell_radii.len());
             if res.nneg > 0 {
                 info!("{} cells had negative weight!", res.nneg);
@@ -428,6 +429,17 @@ impl ObserveCell for Observer {
 }
 
 impl ObserverData {
+    // Data for a thread, without any cells that were observed before
+    fn for_thread(&self) -> Self {
+        Self {
+            cell_collector: self
+                .cell_collector
+                .as_ref()
+                .map(|_| CellCollector::new()),
+            ..Default::default()
+        }
+    }
+
     pub fn combine(mut self, mut other: Self) -> Self {
         self.cell_radii.append(&mut other.cell_radii);
         self.nneg += other.nneg;
-- 
2.43.0


From 3eef1983290ae94239b522202141e2c75db32e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:16 +0000
Subject: [PATCH 35/37] fix: read all parts of gzip and bzip2 files with
 several parts

Only the first part of e.g. concatenated compressed files was read.
---
 src/bin/classify-events.rs |  3 +--
 src/compression.rs         | 26 +++++++++++++++++++++++---
 src/hepmc2.rs              |  3 +--
 src/io.rs                  |  3 +--
 src/lhef.rs                |  3 +--
 src/stripper_xml.rs        |  3 +--
 6 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/bin/classify-events.rs b/src/bin/classify-events.rs
index 9f09494..fbf8153 100644
--- a/src/bin/classify-events.rs
+++ b/src/bin/classify-events.rs
@@ -9,10 +9,9 @@ use std::{
 };
 
 use anyhow::{anyhow, bail, Context, Result};
-use audec::auto_decompress;
 use clap::Parser;
 use cres::{
-    compression::{CompressedWriter, Compression},
+    compression::{auto_decompress, CompressedWriter, Compression},
     distance::EuclWithScaledPt,
     event::Event,
     formats::FileFormat,
diff --git a/src/compression.rs b/src/compression.rs
index 41d7091..d8f3dac 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -1,7 +1,8 @@
-use std::io::Write;
+use std::io::{BufRead, BufReader, Write};
 
-use bzip2::write::BzEncoder;
-use flate2::write::GzEncoder;
+use bzip2::{bufread::MultiBzDecoder, write::BzEncoder};
+use flate2::{bufread::MultiGzDecoder, write::GzEncoder};
+use log::debug;
 
 /// Compression format
 #[derive(Debug, Copy, Clone)]
@@ -24,6 +25,25 @@ pub fn compress_writer<'a, W: 'a + Write>(
     Ok(Box::new(CompressedWriter::new(writer, compression)?))
 }
 
+/// Automatic decompression, depending on the leading bytes
+///
+/// In contrast to [audec::auto_decompress] this reads all parts of
+/// compressed data with several parts, as produced by concatenating
+/// compressed files or by parallel compression programs.
+pub fn auto_decompress<'a, B: 'a + BufRead>(mut r: B) -> Box<dyn BufRead + 'a> {
+    match r.fill_buf() {
+        Ok([b'B', b'Z', b'h', ..]) => {
+            debug!("Decompress as bzip2");
+            Box::new(BufReader::new(MultiBzDecoder::new(r)))
+        }
+        Ok([0x1f, 0x8b, ..]) => {
+            debug!("Decompress as gzip");
+            Box::new(BufReader::new(MultiGzDecoder::new(r)))
+        }
+        _ => audec::auto_decompress(r),
+    }
+}
+
 /// Writer that compresses to a given format
 ///
 /// Errors when completing the output are only reported by
diff --git a/src/hepmc2.rs b/src/hepmc2.rs
index 0af6d21..e2b2185 100644
--- a/src/hepmc2.rs
+++ b/src/hepmc2.rs
@@ -4,14 +4,13 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use audec::auto_decompress;
 use log::trace;
 use noisy_float::prelude::*;
 use nom::{multi::count, IResult, Parser};
 use particle_id::ParticleID;
 
 use crate::{
-    compression::{CompressedWriter, Compression},
+    compression::{auto_decompress, CompressedWriter, Compression},
     event::{Event, EventBuilder, Weights},
     io::{
         Converter, CreateError, ErrorKind, EventFileReader, EventRecord,
diff --git a/src/io.rs b/src/io.rs
index 82809ef..1769937 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -6,13 +6,12 @@ use std::{
     string::FromUtf8Error,
 };
 
-use audec::auto_decompress;
 use log::debug;
 use serde::{Deserialize, Serialize};
 use thiserror::Error;
 
 use crate::{
-    compression::Compression,
+    compression::{auto_decompress, Compression},
     event::{Event, Weights},
     formats::FileFormat,
     hepmc2::HepMCParser,
diff --git a/src/lhef.rs b/src/lhef.rs
index dd9e248..681935e 100644
--- a/src/lhef.rs
+++ b/src/lhef.rs
@@ -4,7 +4,6 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use audec::auto_decompress;
 use log::trace;
 use noisy_float::prelude::*;
 use nom::{
@@ -17,7 +16,7 @@ use nom::{
 use particle_id::ParticleID;
 
 use crate::{
-    compression::{CompressedWriter, Compression},
+    compression::{auto_decompress, CompressedWriter, Compression},
     event::{Event, EventBuilder, Weights},
     hepmc2::update_central_weight,
     io::{
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index 2005562..f675e8c 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -7,7 +7,6 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use audec::auto_decompress;
 use log::{debug, trace};
 use noisy_float::prelude::*;
 use nom::{
@@ -23,7 +22,7 @@ use stripper_xml::normalization::Normalization;
 use thiserror::Error;
 
 use crate::{
-    compression::{CompressedWriter, Compression},
+    compression::{auto_decompress, CompressedWriter, Compression},
     event::{Event, EventBuilder, Weights},
     four_vector::FourVector,
     io::{
-- 
2.43.0


From 46636d4e49b8b6266b1aa8d090ce59f1529a929f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:01 +0000
Subject: [PATCH 36/37] fix: read all frames of lz4 files and report incomplete
 lz4 data

Only the first frame of e.g. concatenated lz4 files was read, and the
end of incomplete lz4 data was taken as the end of the file.
---
 src/compression.rs | 76 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 75 insertions(+), 1 deletion(-)

diff --git a/src/compression.rs b/src/compression.rs
index d8f3dac..47c7fe4 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -1,4 +1,4 @@
-use std::io::{BufRead, BufReader, Write};
+use std::io::{BufRead, BufReader, Error, ErrorKind, Read, Write};
 
 use bzip2::{bufread::MultiBzDecoder, write::BzEncoder};
 use flate2::{bufread::MultiGzDecoder, write::GzEncoder};
@@ -40,10 +40,84 @@ pub fn auto_decompress<'a, B: 'a + BufRead>(mut r: B) -> Box<dyn BufRead + 'a> {
             debug!("Decompress as gzip");
             Box::new(BufReader::new(MultiGzDecoder::new(r)))
         }
+        Ok([0x04, 0x22, 0x4d, 0x18, ..]) => {
+            debug!("Decompress as lz4");
+            Box::new(Lz4Decoder::new(r))
+        }
         _ => audec::auto_decompress(r),
     }
 }
 
+/// Read all frames of lz4 data, which have to be complete
+struct Lz4Decoder<R> {
+    source: Option<R>,
+    frame: Option<lz4::Decoder<R>>,
+    buf: Box<[u8]>,
+    pos: usize,
+    len: usize,
+}
+
+impl<R> Lz4Decoder<R> {
+    fn new(source: R) -> Self {
+        // There has to be enough space for the largest possible block:
+        // if there is not, the decoder can read past the end of the frame.
+        const MAX_BLOCK_SIZE: usize = 4 * 1024 * 1024;
+        Self {
+            source: Some(source),
+            frame: None,
+            buf: vec![0; MAX_BLOCK_SIZE].into_boxed_slice(),
+            pos: 0,
+            len: 0,
+        }
+    }
+}
+
+impl<R: BufRead> BufRead for Lz4Decoder<R> {
+    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
+        while self.pos == self.len {
+            if let Some(frame) = self.frame.as_mut() {
+                self.len = frame.read(&mut self.buf)?;
+                self.pos = 0;
+                if self.len > 0 {
+                    break;
+                }
+            }
+            if let Some(frame) = self.frame.take() {
+                let (source, res) = frame.finish();
+                self.source = Some(source);
+                // the kind of the original error means to try again
+                res.map_err(|_| {
+                    Error::new(
+                        ErrorKind::UnexpectedEof,
+                        "lz4 data are incomplete",
+                    )
+                })?;
+            }
+            let Some(source) = self.source.as_mut() else {
+                break;
+            };
+            if source.fill_buf()?.is_empty() {
+                break;
+            }
+            let source = self.source.take();
+            self.frame = source.map(lz4::Decoder::new).transpose()?;
+        }
+        Ok(&self.buf[self.pos..self.len])
+    }
+
+    fn consume(&mut self, amt: usize) {
+        self.pos += amt;
+    }
+}
+
+impl<R: BufRead> Read for Lz4Decoder<R> {
+    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        let nread = self.fill_buf()?.read(buf)?;
+        self.consume(nread);
+        Ok(nread)
+    }
+}
+
 /// Writer that compresses to a given format
 ///
 /// Errors when completing the output are only reported by
-- 
2.43.0


From f5aadec9e987bcdd1d98113846a6909dabafaeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:14 +0000
Subject: [PATCH 37/37] fix: recognise the format of files that start with a
 short compressed part

A single read may return only a few bytes of the data.
---
 src/io.rs           | 10 ++++------
 src/stripper_xml.rs | 10 +++++-----
 src/util.rs         | 15 +++++++++++++++
 3 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 1769937..78a30dd 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -1,7 +1,7 @@
 use std::{
     collections::{HashMap, HashSet},
     fs::File,
-    io::{BufRead, BufReader},
+    io::BufReader,
     path::{Path, PathBuf},
     string::FromUtf8Error,
 };
@@ -17,7 +17,7 @@ use crate::{
     hepmc2::HepMCParser,
     progress_bar::{Progress, ProgressBar},
     traits::{Rewind, TryConvert, UpdateWeights},
-    util::trim_ascii_start,
+    util::{read_start, trim_ascii_start},
 };
 
 #[cfg(feature = "lhef")]
@@ -299,16 +299,14 @@ pub fn detect_event_file_format(
 
     let file = File::open(infile).map_err(OpenInput)?;
     let mut r = auto_decompress(BufReader::new(file));
-    let Ok(bytes) = r.fill_buf() else {
-        return Ok(HepMC2);
-    };
+    let (bytes, _) = read_start(&mut r);
     if bytes.starts_with(&ROOT_MAGIC_BYTES) {
         #[cfg(not(feature = "ntuple"))]
         return Err(RootUnsupported);
         #[cfg(feature = "ntuple")]
         return Ok(BlackHatNtuple);
     }
-    if trim_ascii_start(bytes).starts_with(b"<?xml") {
+    if trim_ascii_start(&bytes).starts_with(b"<?xml") {
         #[cfg(not(feature = "stripper-xml"))]
         return Err(XMLUnsupported);
         #[cfg(feature = "stripper-xml")]
diff --git a/src/stripper_xml.rs b/src/stripper_xml.rs
index f675e8c..d462012 100644
--- a/src/stripper_xml.rs
+++ b/src/stripper_xml.rs
@@ -30,7 +30,7 @@ use crate::{
         FileIOError, ReadError, Utf8Error, WriteError,
     },
     traits::{Rewind, UpdateWeights},
-    util::{take_chars, trim_ascii_start},
+    util::{read_start, take_chars, trim_ascii_start},
 };
 
 /// Reader from a (potentially compressed) Les Houches Event File
@@ -304,11 +304,11 @@ where
         let path = path.as_ref();
         let file = File::open(path).map_err(OpenInput)?;
         let mut r = auto_decompress(BufReader::new(file));
-        if let Ok(buf) = r.fill_buf() {
-            let buf = trim_ascii_start(buf);
-            if buf.starts_with(b"<?xml") {
+        let (start, res) = read_start(&mut r);
+        if res.is_ok() {
+            if trim_ascii_start(&start).starts_with(b"<?xml") {
                 debug!("extracting scaling information from {path:?}");
-                let tag = extract_xml_info(r)?;
+                let tag = extract_xml_info(start.as_slice().chain(r))?;
                 match tag {
                     XMLTag::Normalization { name, scale } => {
                         let entry = rescale.entry(name).or_default();
diff --git a/src/util.rs b/src/util.rs
index f545c49..9a64529 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -1,3 +1,5 @@
+use std::io::Read;
+
 // the corresponding built-in method is currently (rust 1.70.0) only
 // available in unstable, so we have to implement it ourselves
 pub(crate) fn trim_ascii_start(buf: &[u8]) -> &[u8] {
@@ -11,3 +13,16 @@ pub(crate) fn trim_ascii_start(buf: &[u8]) -> &[u8] {
 pub(crate) fn take_chars(s: &str, n: usize) -> String {
     s.chars().take(n).collect()
 }
+
+/// Read the start of the data, together with any error on the way
+///
+/// A single call to `read` or `fill_buf` is not sufficient, as it may
+/// return only a few bytes.
+pub(crate) fn read_start(
+    r: &mut impl Read,
+) -> (Vec<u8>, std::io::Result<usize>) {
+    const MAX_LEN: u64 = 8192;
+    let mut buf = Vec::new();
+    let res = r.take(MAX_LEN).read_to_end(&mut buf);
+    (buf, res)
+}
-- 
2.43.0

