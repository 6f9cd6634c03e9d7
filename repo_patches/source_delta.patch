From f8b85d86b820739f29cbe3fc38d196036eb2b486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:25 +0000
Subject: [PATCH 01/21] fix: count two bytes per utf-16 code unit in Data::len

The length of utf-16 strings was reported in code units, so the sizes written for
their atoms were too small and the written file could not be read back.
---
 src/atom/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atom/data.rs b/src/atom/data.rs
index c617a8e..f933dad 100644
--- a/src/atom/data.rs
+++ b/src/atom/data.rs
@@ -133,7 +133,7 @@ impl Data {
         (match self {
             Self::Reserved(v) => v.len(),
             Self::Utf8(s) => s.len(),
-            Self::Utf16(s) => s.encode_utf16().count(),
+            Self::Utf16(s) => 2 * s.encode_utf16().count(),
             Self::Jpeg(v) => v.len(),
             Self::Png(v) => v.len(),
             Self::BeSigned(v) => v.len(),
-- 
2.43.0


From 002e766091453f37a7d1ac744196a4a53cbc41aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:25 +0000
Subject: [PATCH 02/21] fix: don't keep atoms without data after setting or
 adding no data

set_all_data and add_all_data (and the accessors built on them) kept or created an
atom without any data when given no values. Such an atom made is_empty() false and,
once written, made the file unreadable because the data atom is missing.
---
 src/tag/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tag/mod.rs b/src/tag/mod.rs
index eed2963..2bd07ec 100644
--- a/src/tag/mod.rs
+++ b/src/tag/mod.rs
@@ -1278,6 +1278,7 @@ impl Tag {
                 self.atoms.push(AtomData::new(ident.into(), data.into_iter().collect()));
             }
         }
+        self.remove_empty_atoms();
     }
 
     /// If an atom corresponding to the identifier exists, the new data will be added to it,
@@ -1335,6 +1336,12 @@ impl Tag {
             Some(a) => a.data.extend(data),
             None => self.atoms.push(AtomData::new(ident.into(), data.into_iter().collect())),
         }
+        self.remove_empty_atoms();
+    }
+
+    /// Removes atoms that don't contain any data, writing them would result in an unreadable file.
+    fn remove_empty_atoms(&mut self) {
+        self.atoms.retain(|a| !a.data.is_empty());
     }
 
     /// Returns true if this tag contains any metadata atoms, false otherwise.
-- 
2.43.0


From cba5c764f7c88b701f3dddc64db5b6b07ea36e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:25 +0000
Subject: [PATCH 03/21] fix: remove track and disc atoms when no number remains

number() and total() never return Some(0), so the guards were always true and a
zeroed tuple was left behind instead of removing the atom.
---
 src/tag/tuple.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tag/tuple.rs b/src/tag/tuple.rs
index 1a85f21..7179619 100644
--- a/src/tag/tuple.rs
+++ b/src/tag/tuple.rs
@@ -73,7 +73,7 @@ impl Tag {
     pub fn remove_track_number(&mut self) {
         let vec = self.bytes_mut_of(&atom::TRACK_NUMBER).next();
         match vec {
-            Some(v) if total(v) != Some(0) => set_number(v, 0),
+            Some(v) if total(v).is_some() => set_number(v, 0),
             _ => self.remove_track(),
         }
     }
@@ -82,7 +82,7 @@ impl Tag {
     pub fn remove_total_tracks(&mut self) {
         let vec = self.bytes_mut_of(&atom::TRACK_NUMBER).next();
         match vec {
-            Some(v) if number(v) != Some(0) => set_total(v, 0),
+            Some(v) if number(v).is_some() => set_total(v, 0),
             _ => self.remove_track(),
         }
     }
@@ -169,7 +169,7 @@ impl Tag {
     pub fn remove_disc_number(&mut self) {
         let vec = self.bytes_mut_of(&atom::DISC_NUMBER).next();
         match vec {
-            Some(v) if total(v) != Some(0) => set_number(v, 0),
+            Some(v) if total(v).is_some() => set_number(v, 0),
             _ => self.remove_disc(),
         }
     }
@@ -178,7 +178,7 @@ impl Tag {
     pub fn remove_total_discs(&mut self) {
         let vec = self.bytes_mut_of(&atom::DISC_NUMBER).next();
         match vec {
-            Some(v) if number(v) != Some(0) => set_total(v, 0),
+            Some(v) if number(v).is_some() => set_total(v, 0),
             _ => self.remove_disc(),
         }
     }
-- 
2.43.0


From a545b6bf2dfece9599a90dc0d44a6dd6c555d8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:25 +0000
Subject: [PATCH 04/21] fix: make the single genre accessors agree with the
 genre list

genre() ignored known standard genres following an unknown one, and take_genre()
left the custom genres in place when a standard genre was present although it is
documented to remove them.
---
 src/tag/genre.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/tag/genre.rs b/src/tag/genre.rs
index baaa91d..4b4877d 100644
--- a/src/tag/genre.rs
+++ b/src/tag/genre.rs
@@ -148,11 +148,7 @@ impl Tag {
 
     /// Returns the first genre (`gnre` or `©gen`).
     pub fn genre(&self) -> Option<&str> {
-        if let Some(g) = self.standard_genre().and_then(stanard_genre) {
-            return Some(g);
-        }
-
-        self.custom_genre()
+        self.genres().next()
     }
 
     /// Removes all custom genres (`©gen`) and returns all genres, first standard genres (`gnre`)
@@ -168,11 +164,7 @@ impl Tag {
 
     /// Removes all custom genres (`©gen`) and returns the first genre (`gnre` or `©gen`).
     pub fn take_genre(&mut self) -> Option<String> {
-        if let Some(g) = self.standard_genre().and_then(stanard_genre) {
-            return Some(g.to_owned());
-        }
-
-        self.take_custom_genre()
+        self.take_genres().next()
     }
 
     /// Sets the custom genre (`©gen`). This will remove all other standard or custom genres.
-- 
2.43.0


From bdf0937c02f99d8803f6cb5375d96fefbbb003de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:25 +0000
Subject: [PATCH 05/21] fix: correct the names of three standard genres

The list is documented to be the ID3v1 genres: Hip-Hop, Top 40 and Lo-Fi were misspelled.
---
 src/tag/genre.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tag/genre.rs b/src/tag/genre.rs
index 4b4877d..b022218 100644
--- a/src/tag/genre.rs
+++ b/src/tag/genre.rs
@@ -12,7 +12,7 @@ pub const STANDARD_GENRES: [&str; 80] = [
     "Disco",
     "Funk",
     "Grunge",
-    "Hip,-Hop",
+    "Hip-Hop",
     "Jazz",
     "Metal",
     "New Age",
@@ -65,7 +65,7 @@ pub const STANDARD_GENRES: [&str; 80] = [
     "Comedy",
     "Cult",
     "Gangsta",
-    "Top 41",
+    "Top 40",
     "Christian Rap",
     "Pop/Funk",
     "Jungle",
@@ -76,7 +76,7 @@ pub const STANDARD_GENRES: [&str; 80] = [
     "Rave",
     "Show tunes",
     "Trailer",
-    "Lo,-Fi",
+    "Lo-Fi",
     "Tribal",
     "Acid Punk",
     "Acid Jazz",
-- 
2.43.0


From 47f756f28f3405c5a1160c53c77a270112b184b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:03 +0000
Subject: [PATCH 06/21] fix: don't overflow or divide by zero when computing
 the duration

The multiplication overflowed for 64 bit durations longer than about 18 billion time
units (panic or wrong duration) and a time scale of 0 caused a division by zero.
---
 src/atom/mvhd.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/atom/mvhd.rs b/src/atom/mvhd.rs
index d2a9c4b..e2f95a2 100644
--- a/src/atom/mvhd.rs
+++ b/src/atom/mvhd.rs
@@ -33,7 +33,7 @@ impl ParseAtom for Mvhd {
                 let timescale = reader.read_u32()? as u64;
                 let duration = reader.read_u32()? as u64;
 
-                mvhd.duration = Duration::from_nanos(duration * 1_000_000_000 / timescale);
+                mvhd.duration = scale_duration(duration, timescale)?;
             }
             1 => {
                 // # Version 1
@@ -48,7 +48,7 @@ impl ParseAtom for Mvhd {
                 let timescale = reader.read_u32()? as u64;
                 let duration = reader.read_u64()?;
 
-                mvhd.duration = Duration::from_nanos(duration * 1_000_000_000 / timescale);
+                mvhd.duration = scale_duration(duration, timescale)?;
             }
             v => {
                 return Err(crate::Error::new(
@@ -63,3 +63,17 @@ impl ParseAtom for Mvhd {
         Ok(mvhd)
     }
 }
+
+/// Returns the duration of `duration` time units, where one second consists of `timescale` units.
+fn scale_duration(duration: u64, timescale: u64) -> crate::Result<Duration> {
+    if timescale == 0 {
+        return Err(crate::Error::new(
+            crate::ErrorKind::Parsing,
+            "Movie header (mvhd) time scale is 0".to_owned(),
+        ));
+    }
+
+    let secs = duration / timescale;
+    let nanos = duration % timescale * 1_000_000_000 / timescale;
+    Ok(Duration::new(secs, nanos as u32))
+}
-- 
2.43.0


From 366b3024042e299de88916a1e4a904f72d388a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:03 +0000
Subject: [PATCH 07/21] fix: reject invalid extended atom lengths

Extended lengths less than the size of the head underflowed the content length and
lengths exceeding i64::MAX overflowed length sums or seeked backwards, possibly forever.
---
 src/atom/head.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/atom/head.rs b/src/atom/head.rs
index a0e2174..c5bfd02 100644
--- a/src/atom/head.rs
+++ b/src/atom/head.rs
@@ -118,6 +118,10 @@ pub fn parse_head(reader: &mut impl Read) -> crate::Result<Head> {
 
     if len == 1 {
         match reader.read_u64() {
+            Ok(l) if l < 16 || l > i64::MAX as u64 => Err(crate::Error::new(
+                crate::ErrorKind::Parsing,
+                format!("Read invalid extended length of '{}': {}", ident, l),
+            )),
             Ok(l) => Ok(Head::new(true, l, ident)),
             Err(e) => Err(crate::Error::new(
                 ErrorKind::Io(e),
-- 
2.43.0


From 293c4966b6e8d32b7f3b9034f7157d953a760af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:03 +0000
Subject: [PATCH 08/21] fix: return an error for atoms too short for their
 content

The lengths of data, mean, name, mvhd and mp4a atoms were used in subtractions
without checking that they cover the fields that were read.
---
 src/atom/head.rs | 17 ++++++++++++++++-
 src/atom/mod.rs  |  6 +++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/atom/head.rs b/src/atom/head.rs
index c5bfd02..80e62a9 100644
--- a/src/atom/head.rs
+++ b/src/atom/head.rs
@@ -150,6 +150,16 @@ pub fn write_head(writer: &mut impl Write, head: Head) -> crate::Result<()> {
     Ok(())
 }
 
+/// Returns the remaining content length after the first `len` bytes of the atom's content.
+pub fn sub_len(head: &Head, len: u64) -> crate::Result<u64> {
+    head.content_len().checked_sub(len).ok_or_else(|| {
+        crate::Error::new(
+            crate::ErrorKind::Parsing,
+            format!("Read length of '{}' which is too short: {}", head.fourcc(), head.len()),
+        )
+    })
+}
+
 /// Attempts to parse a full atom head.
 ///
 /// ```md
@@ -223,7 +233,12 @@ pub fn find_bounds(reader: &mut impl Seek, size: Size) -> crate::Result<AtomBoun
 
 pub fn seek_to_end(reader: &mut impl Seek, bounds: &AtomBounds) -> crate::Result<()> {
     let current = reader.seek(SeekFrom::Current(0))?;
-    let diff = bounds.end() - current;
+    let diff = bounds.end().checked_sub(current).ok_or_else(|| {
+        crate::Error::new(
+            crate::ErrorKind::Parsing,
+            format!("Read atom length which is too short: {}", bounds.len()),
+        )
+    })?;
     reader.seek(SeekFrom::Current(diff as i64))?;
     Ok(())
 }
diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 5fb5b41..ccffde2 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -210,7 +210,7 @@ impl AtomData {
                     // Skipping 4 byte locale indicator
                     reader.seek(SeekFrom::Current(4))?;
 
-                    data.push(Data::parse(reader, datatype, head.content_len() - 8)?);
+                    data.push(Data::parse(reader, datatype, sub_len(&head, 8)?)?);
                 }
                 MEAN => {
                     let (version, _) = parse_full_head(reader)?;
@@ -221,7 +221,7 @@ impl AtomData {
                         ));
                     }
 
-                    mean = Some(reader.read_utf8(head.content_len() - 4)?);
+                    mean = Some(reader.read_utf8(sub_len(&head, 4)?)?);
                 }
                 NAME => {
                     let (version, _) = parse_full_head(reader)?;
@@ -232,7 +232,7 @@ impl AtomData {
                         ));
                     }
 
-                    name = Some(reader.read_utf8(head.content_len() - 4)?);
+                    name = Some(reader.read_utf8(sub_len(&head, 4)?)?);
                 }
                 _ => {
                     reader.seek(SeekFrom::Current(head.content_len() as i64))?;
-- 
2.43.0


From 08e337d72fc08f1f7dc97315b17dafbdae392256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:30 +0000
Subject: [PATCH 09/21] fix: don't underflow on too short audio descriptors

---
 src/atom/mp4a.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/atom/mp4a.rs b/src/atom/mp4a.rs
index 530482f..21aa008 100644
--- a/src/atom/mp4a.rs
+++ b/src/atom/mp4a.rs
@@ -127,7 +127,7 @@ fn parse_esds(reader: &mut (impl Read + Seek), info: &mut Mp4a, size: Size) -> c
         ));
     }
 
-    let max_len = size.content_len() - 4 - head_len;
+    let max_len = size.content_len().saturating_sub(4 + head_len);
     parse_es_desc(reader, info, min(desc_len, max_len))?;
 
     Ok(())
@@ -213,6 +213,13 @@ fn parse_dc_desc(reader: &mut (impl Read + Seek), info: &mut Mp4a, len: u64) ->
 /// 3 bits ?
 /// ```
 fn parse_ds_desc(reader: &mut (impl Read + Seek), info: &mut Mp4a, len: u64) -> crate::Result<()> {
+    if len < 2 {
+        return Err(crate::Error::new(
+            crate::ErrorKind::Parsing,
+            "Decoder specific descriptor is too short".to_owned(),
+        ));
+    }
+
     let num = reader.read_u16()?;
 
     let freq_index = ((num >> 7) & 0x0F) as u8;
-- 
2.43.0


From 49d909578e1e3914745cd396e6dfb07d70304fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:32 +0000
Subject: [PATCH 10/21] fix: don't allocate memory for data that isn't present

Buffers were allocated according to the claimed length before reading anything, so
a few bytes could make the process panic or abort due to a failed allocation.
---
 src/atom/co64.rs |  2 +-
 src/atom/data.rs | 19 ++++++++++++-------
 src/atom/stco.rs |  2 +-
 3 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/atom/co64.rs b/src/atom/co64.rs
index 16fc9e5..a15f0bd 100644
--- a/src/atom/co64.rs
+++ b/src/atom/co64.rs
@@ -28,7 +28,7 @@ impl ParseAtom for Co64 {
                 }
 
                 let table_pos = reader.seek(SeekFrom::Current(0))?;
-                let mut offsets = Vec::with_capacity(entries as usize);
+                let mut offsets = Vec::new();
                 for _ in 0..entries {
                     let offset = reader.read_u64()?;
                     offsets.push(offset);
diff --git a/src/atom/data.rs b/src/atom/data.rs
index f933dad..6769f87 100644
--- a/src/atom/data.rs
+++ b/src/atom/data.rs
@@ -434,7 +434,7 @@ impl Data {
     }
 }
 
-pub trait ReadData: Read {
+pub trait ReadData: Read + Sized {
     /// Attempts to read an unsigned 8 bit integer from the reader.
     fn read_u8(&mut self) -> io::Result<u8> {
         let mut buf = [0u8];
@@ -463,10 +463,17 @@ pub trait ReadData: Read {
         Ok(u64::from_be_bytes(buf))
     }
 
-    /// Attempts to read 8 bit unsigned integers from the reader to a vector of size length.
+    /// Attempts to read 8 bit unsigned integers from the reader to a vector of size length. This
+    /// only allocates memory for data that is actually present.
     fn read_u8_vec(&mut self, len: u64) -> io::Result<Vec<u8>> {
-        let mut buf = vec![0u8; len as usize];
-        self.read_exact(&mut buf)?;
+        let mut buf = Vec::new();
+        self.by_ref().take(len).read_to_end(&mut buf)?;
+        if (buf.len() as u64) < len {
+            return Err(io::Error::new(
+                io::ErrorKind::UnexpectedEof,
+                "reached the end while reading data",
+            ));
+        }
         Ok(buf)
     }
 
@@ -479,9 +486,7 @@ pub trait ReadData: Read {
 
     /// Attempts to read a utf-16 string from the reader.
     fn read_utf16(&mut self, len: u64) -> crate::Result<String> {
-        let mut buf = vec![0u8; len as usize];
-
-        self.read_exact(&mut buf)?;
+        let buf = self.read_u8_vec(len)?;
 
         let data: Vec<u16> =
             buf.chunks_exact(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
diff --git a/src/atom/stco.rs b/src/atom/stco.rs
index e1b8ebc..b2fcd71 100644
--- a/src/atom/stco.rs
+++ b/src/atom/stco.rs
@@ -28,7 +28,7 @@ impl ParseAtom for Stco {
                 }
 
                 let table_pos = reader.seek(SeekFrom::Current(0))?;
-                let mut offsets = Vec::with_capacity(entries as usize);
+                let mut offsets = Vec::new();
                 for _ in 0..entries {
                     let offset = reader.read_u32()?;
                     offsets.push(offset);
-- 
2.43.0


From f7734a9e5452d5ce94bb1ec6b6481099e11eda5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:38 +0000
Subject: [PATCH 11/21] fix: read and validate the whole file before modifying
 it

A chunk offset table that could not be parsed was only noticed after tables of other
tracks had already been rewritten, leaving a damaged file behind, and an item list
exceeding the file underflowed the length of the moved data.
---
 src/atom/mod.rs | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index ccffde2..acc60fa 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -448,14 +448,23 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
 
     // reading moved data
     let old_file_len = reader.seek(SeekFrom::End(0))?;
+    let mut end = ilst.map_or(0, |a| a.end());
+    for a in update_atoms.iter() {
+        if end > a.end() {
+            return Err(atom_bounds_error());
+        }
+        end = a.end();
+    }
+    if end > old_file_len {
+        return Err(atom_bounds_error());
+    }
     let moved_data_len = old_file_len - moved_data_start;
     let mut moved_data = Vec::with_capacity(moved_data_len as usize);
     reader.seek(SeekFrom::Start(moved_data_start))?;
     reader.read_to_end(&mut moved_data)?;
 
-    let mut writer = BufWriter::new(file);
-
     // adjusting sample table chunk offsets
+    let mut chunk_offset_tables = Vec::new();
     if mdat_pos > moov.pos() {
         let stbl_atoms = moov.trak.iter().filter_map(|a| {
             a.mdia.as_ref().and_then(|a| a.minf.as_ref()).and_then(|a| a.stbl.as_ref())
@@ -466,27 +475,35 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
                 reader.seek(SeekFrom::Start(a.content_pos()))?;
                 let chunk_offset = Stco::parse(reader, a.size())?;
 
-                writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
+                let mut table = Vec::new();
                 for co in chunk_offset.offsets.iter() {
                     let new_offset = (*co as i64 + len_diff) as u32;
-                    writer.write_all(&u32::to_be_bytes(new_offset))?;
+                    table.extend_from_slice(&u32::to_be_bytes(new_offset));
                 }
-                writer.flush()?;
+                chunk_offset_tables.push((chunk_offset.table_pos, table));
             }
             if let Some(a) = &stbl.co64 {
                 reader.seek(SeekFrom::Start(a.content_pos()))?;
                 let chunk_offset = Co64::parse(reader, a.size())?;
 
-                writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
+                let mut table = Vec::new();
                 for co in chunk_offset.offsets.iter() {
                     let new_offset = (*co as i64 + len_diff) as u64;
-                    writer.write_all(&u64::to_be_bytes(new_offset))?;
+                    table.extend_from_slice(&u64::to_be_bytes(new_offset));
                 }
-                writer.flush()?;
+                chunk_offset_tables.push((chunk_offset.table_pos, table));
             }
         }
     }
 
+    // the file is only modified after everything has been read and validated
+    let mut writer = BufWriter::new(file);
+
+    for (pos, table) in chunk_offset_tables.iter() {
+        writer.seek(SeekFrom::Start(*pos))?;
+        writer.write_all(table)?;
+    }
+
     // update existing ilst hierarchy atom lengths
     for a in update_atoms.iter().rev() {
         let new_len = a.len() as i64 + len_diff;
@@ -525,6 +542,13 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     Ok(())
 }
 
+fn atom_bounds_error() -> crate::Error {
+    crate::Error::new(
+        crate::ErrorKind::Parsing,
+        "An atom exceeds the bounds of the atom or file containing it".to_owned(),
+    )
+}
+
 /// Attempts to dump the metadata atoms to the writer. This doesn't include a complete MPEG-4
 /// container hierarchy and won't result in a usable file.
 pub(crate) fn dump_tag_to(writer: &mut impl Write, atoms: &[AtomData]) -> crate::Result<()> {
-- 
2.43.0


From c1f251831828ad260f5b4a4cea90bb27a5f0f854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:38 +0000
Subject: [PATCH 12/21] fix: adjust chunk offset tables located after the
 metadata

The tables were updated in place, but when a track follows the user data atom the
unmodified copy held in the moved data was written back afterwards.
---
 src/atom/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index acc60fa..12a5b54 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -500,8 +500,13 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     let mut writer = BufWriter::new(file);
 
     for (pos, table) in chunk_offset_tables.iter() {
-        writer.seek(SeekFrom::Start(*pos))?;
-        writer.write_all(table)?;
+        if *pos >= moved_data_start {
+            let start = (*pos - moved_data_start) as usize;
+            moved_data[start..start + table.len()].copy_from_slice(table);
+        } else {
+            writer.seek(SeekFrom::Start(*pos))?;
+            writer.write_all(table)?;
+        }
     }
 
     // update existing ilst hierarchy atom lengths
-- 
2.43.0


From a637a842571dcdbb5f206a061fb9d6fe5280b637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:38 +0000
Subject: [PATCH 13/21] fix: only adjust offsets of chunks that are moved

If there is media data on both sides of the movie atom, the offsets of the chunks
in front of it were adjusted too, although they don't move.
---
 src/atom/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 12a5b54..e973091 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -477,7 +477,11 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
 
                 let mut table = Vec::new();
                 for co in chunk_offset.offsets.iter() {
-                    let new_offset = (*co as i64 + len_diff) as u32;
+                    let new_offset = if *co as u64 >= moved_data_start {
+                        (*co as i64 + len_diff) as u32
+                    } else {
+                        *co
+                    };
                     table.extend_from_slice(&u32::to_be_bytes(new_offset));
                 }
                 chunk_offset_tables.push((chunk_offset.table_pos, table));
@@ -488,7 +492,11 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
 
                 let mut table = Vec::new();
                 for co in chunk_offset.offsets.iter() {
-                    let new_offset = (*co as i64 + len_diff) as u64;
+                    let new_offset = if *co >= moved_data_start {
+                        (*co as i64 + len_diff) as u64
+                    } else {
+                        *co
+                    };
                     table.extend_from_slice(&u64::to_be_bytes(new_offset));
                 }
                 chunk_offset_tables.push((chunk_offset.table_pos, table));
-- 
2.43.0


From d4d05397bc19d4e3473cd06d1c34c98a6f6fb09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:39 +0000
Subject: [PATCH 14/21] fix: return an error if an adjusted chunk offset
 doesn't fit its table

It was silently truncated (or overflowed), pointing the track to the wrong media data.
---
 src/atom/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index e973091..914f46c 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -478,7 +478,7 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
                 let mut table = Vec::new();
                 for co in chunk_offset.offsets.iter() {
                     let new_offset = if *co as u64 >= moved_data_start {
-                        (*co as i64 + len_diff) as u32
+                        u32::try_from(*co as i64 + len_diff).map_err(chunk_offset_error)?
                     } else {
                         *co
                     };
@@ -493,7 +493,7 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
                 let mut table = Vec::new();
                 for co in chunk_offset.offsets.iter() {
                     let new_offset = if *co >= moved_data_start {
-                        (*co as i64 + len_diff) as u64
+                        u64::try_from(*co as i128 + len_diff as i128).map_err(chunk_offset_error)?
                     } else {
                         *co
                     };
@@ -562,6 +562,13 @@ fn atom_bounds_error() -> crate::Error {
     )
 }
 
+fn chunk_offset_error(_: std::num::TryFromIntError) -> crate::Error {
+    crate::Error::new(
+        crate::ErrorKind::Parsing,
+        "An adjusted chunk offset doesn't fit into the chunk offset table".to_owned(),
+    )
+}
+
 /// Attempts to dump the metadata atoms to the writer. This doesn't include a complete MPEG-4
 /// container hierarchy and won't result in a usable file.
 pub(crate) fn dump_tag_to(writer: &mut impl Write, atoms: &[AtomData]) -> crate::Result<()> {
-- 
2.43.0


From eaef902a1b241d768919e7c0c9ecf0ffb278504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:14 +0000
Subject: [PATCH 15/21] fix: return an error if a new atom length doesn't fit
 its 32 bit head

---
 src/atom/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 914f46c..233afbb 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -458,6 +458,14 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     if end > old_file_len {
         return Err(atom_bounds_error());
     }
+    for a in update_atoms.iter() {
+        if !a.ext() && a.len() as i64 + len_diff > u32::MAX as i64 {
+            return Err(crate::Error::new(
+                crate::ErrorKind::Parsing,
+                "The new length of an atom doesn't fit into its 32 bit head".to_owned(),
+            ));
+        }
+    }
     let moved_data_len = old_file_len - moved_data_start;
     let mut moved_data = Vec::with_capacity(moved_data_len as usize);
     reader.seek(SeekFrom::Start(moved_data_start))?;
-- 
2.43.0


From 287a11b9eb2a4718081ede40d6b6a73a718948b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:38 +0000
Subject: [PATCH 16/21] fix: merge items with equal identifiers in linear time

---
 src/atom/ident.rs |  4 ++--
 src/atom/ilst.rs  | 13 +++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/atom/ident.rs b/src/atom/ident.rs
index 0bc7062..c304cc1 100644
--- a/src/atom/ident.rs
+++ b/src/atom/ident.rs
@@ -163,7 +163,7 @@ pub fn idents_match(a: &impl Ident, b: &impl Ident) -> bool {
 }
 
 /// A 4 byte atom identifier (four character code).
-#[derive(Clone, Copy, Default, Eq, PartialEq)]
+#[derive(Clone, Copy, Default, Eq, Hash, PartialEq)]
 pub struct Fourcc(pub [u8; 4]);
 
 impl Deref for Fourcc {
@@ -253,7 +253,7 @@ impl<'a> FreeformIdent<'a> {
 }
 
 /// An identifier for data.
-#[derive(Clone, Debug, Eq, PartialEq)]
+#[derive(Clone, Debug, Eq, Hash, PartialEq)]
 pub enum DataIdent {
     /// A standard identifier containing a 4 byte atom identifier.
     Fourcc(Fourcc),
diff --git a/src/atom/ilst.rs b/src/atom/ilst.rs
index 7f475fd..b50a29f 100644
--- a/src/atom/ilst.rs
+++ b/src/atom/ilst.rs
@@ -1,3 +1,5 @@
+use std::collections::HashMap;
+
 use super::*;
 
 #[derive(Clone, Debug, Eq, PartialEq)]
@@ -24,6 +26,7 @@ impl Atom for Ilst<'_> {
 impl ParseAtom for Ilst<'_> {
     fn parse_atom(reader: &mut (impl Read + Seek), size: Size) -> crate::Result<Self> {
         let mut ilst = Vec::<AtomData>::new();
+        let mut positions = HashMap::<DataIdent, usize>::new();
         let mut parsed_bytes = 0;
 
         while parsed_bytes < size.content_len() {
@@ -35,11 +38,13 @@ impl ParseAtom for Ilst<'_> {
                 }
                 _ => {
                     let atom = AtomData::parse(reader, head.fourcc(), head.content_len())?;
-                    let other = ilst.iter_mut().find(|o| atom.ident == o.ident);
 
-                    match other {
-                        Some(other) => other.data.extend(atom.data),
-                        None => ilst.push(atom),
+                    match positions.get(&atom.ident) {
+                        Some(&i) => ilst[i].data.extend(atom.data),
+                        None => {
+                            positions.insert(atom.ident.clone(), ilst.len());
+                            ilst.push(atom);
+                        }
                     }
                 }
             }
-- 
2.43.0


From b8efed50781ed635e7cc464c80a92769bd6aff39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:09 +0000
Subject: [PATCH 17/21] fix: find the esds atom behind other atoms of a sample
 entry

---
 src/atom/mp4a.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/atom/mp4a.rs b/src/atom/mp4a.rs
index 21aa008..66555c3 100644
--- a/src/atom/mp4a.rs
+++ b/src/atom/mp4a.rs
@@ -77,19 +77,25 @@ impl ParseAtom for Mp4a {
 
         reader.seek(SeekFrom::Current(28))?;
 
-        let head = parse_head(reader)?;
-        if head.fourcc() != ELEMENTARY_STREAM_DESCRIPTION {
-            return Err(crate::Error::new(
-                crate::ErrorKind::AtomNotFound(ELEMENTARY_STREAM_DESCRIPTION),
-                "Missing esds atom".to_owned(),
-            ));
-        }
+        let mut parsed_bytes = 28;
+
+        while parsed_bytes < size.content_len() {
+            let head = parse_head(reader)?;
 
-        parse_esds(reader, &mut mp4a, head.size())?;
+            if head.fourcc() == ELEMENTARY_STREAM_DESCRIPTION {
+                parse_esds(reader, &mut mp4a, head.size())?;
+                seek_to_end(reader, &bounds)?;
+                return Ok(mp4a);
+            }
 
-        seek_to_end(reader, &bounds)?;
+            reader.seek(SeekFrom::Current(head.content_len() as i64))?;
+            parsed_bytes += head.len();
+        }
 
-        Ok(mp4a)
+        Err(crate::Error::new(
+            crate::ErrorKind::AtomNotFound(ELEMENTARY_STREAM_DESCRIPTION),
+            "Missing esds atom".to_owned(),
+        ))
     }
 }
 
-- 
2.43.0


From 4f65de6c9001974e89cb8cea1552db1899a00fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:32 +0000
Subject: [PATCH 18/21] fix: decode escaped profiles and frequency indices of
 decoder configurations

---
 src/atom/mp4a.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/atom/mp4a.rs b/src/atom/mp4a.rs
index 66555c3..31c16a8 100644
--- a/src/atom/mp4a.rs
+++ b/src/atom/mp4a.rs
@@ -213,8 +213,8 @@ fn parse_dc_desc(reader: &mut (impl Read + Seek), info: &mut Mp4a, len: u64) ->
 /// ```md
 /// 1 byte tag (0x05)
 /// 1~4 bytes len
-/// 5 bits profile
-/// 4 bits frequency index
+/// 5 bits profile, 6 more if it's escaped
+/// 4 bits frequency index, 24 more if it's escaped
 /// 4 bits channel config
 /// 3 bits ?
 /// ```
@@ -226,15 +226,24 @@ fn parse_ds_desc(reader: &mut (impl Read + Seek), info: &mut Mp4a, len: u64) ->
         ));
     }
 
-    let num = reader.read_u16()?;
+    let mut bytes = [0; 8];
+    let bytes_len = min(len, 6);
+    reader.read_exact(&mut bytes[..bytes_len as usize])?;
+    let mut bits = u64::from_be_bytes(bytes);
 
-    let freq_index = ((num >> 7) & 0x0F) as u8;
+    // an escaped profile is followed by 6 more bits
+    bits <<= if bits >> 59 == 0x1F { 11 } else { 5 };
+
+    let freq_index = (bits >> 60) as u8;
     info.sample_rate = SampleRate::try_from(freq_index).ok();
 
-    let channel_config = ((num >> 3) & 0x0F) as u8;
+    // an escaped frequency index is followed by the 24 bits of the frequency
+    bits <<= if freq_index == 0x0F { 28 } else { 4 };
+
+    let channel_config = (bits >> 60) as u8;
     info.channel_config = ChannelConfig::try_from(channel_config).ok();
 
-    reader.seek(SeekFrom::Current((len - 2) as i64))?;
+    reader.seek(SeekFrom::Current((len - bytes_len) as i64))?;
     Ok(())
 }
 
-- 
2.43.0


From d883e237333bfdd08a8c97b13508db09f613b533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:34 +0000
Subject: [PATCH 19/21] fix: skip the optional fields of elementary stream
 descriptors

---
 src/atom/mp4a.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/atom/mp4a.rs b/src/atom/mp4a.rs
index 31c16a8..62d7d01 100644
--- a/src/atom/mp4a.rs
+++ b/src/atom/mp4a.rs
@@ -154,9 +154,26 @@ fn parse_esds(reader: &mut (impl Read + Seek), info: &mut Mp4a, size: Size) -> c
 /// └──sl config descriptor
 /// ```
 fn parse_es_desc(reader: &mut (impl Read + Seek), info: &mut Mp4a, len: u64) -> crate::Result<()> {
-    reader.seek(SeekFrom::Current(3))?;
+    reader.seek(SeekFrom::Current(2))?;
+    let flags = reader.read_u8()?;
 
     let mut parsed_bytes = 3;
+    if flags & 0x80 != 0 {
+        // id of the stream this one depends on
+        reader.seek(SeekFrom::Current(2))?;
+        parsed_bytes += 2;
+    }
+    if flags & 0x40 != 0 {
+        let url_len = reader.read_u8()?;
+        reader.seek(SeekFrom::Current(url_len as i64))?;
+        parsed_bytes += 1 + url_len as u64;
+    }
+    if flags & 0x20 != 0 {
+        // id of the clock reference stream
+        reader.seek(SeekFrom::Current(2))?;
+        parsed_bytes += 2;
+    }
+
     while parsed_bytes < len {
         let (tag, head_len, desc_len) = parse_desc_head(reader)?;
 
-- 
2.43.0


From c04a59246584a81937ba1416262d3cc57c2b4e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 20/21] fix: report the I/O error as the source of an error

---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index d6004bd..9490a51 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -54,7 +54,7 @@ impl Error {
 }
 
 impl error::Error for Error {
-    fn cause(&self) -> Option<&dyn error::Error> {
+    fn source(&self) -> Option<&(dyn error::Error + 'static)> {
         match self.kind {
             ErrorKind::Io(ref err) => Some(err),
             _ => None,
-- 
2.43.0


From 89d4ea9c0458ad1b02c7641622f647164e23cf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 21/21] fix: write a 64 bit length for items that don't fit
 into 32 bits

---
 src/atom/mod.rs | 42 +++++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 233afbb..58e3fcc 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -167,16 +167,20 @@ impl AtomData {
 
     /// Returns the external length of the atom in bytes.
     pub fn len(&self) -> u64 {
-        let parent_len = 8;
-        let data_len: u64 = self.data.iter().map(|d| 16 + d.len()).sum();
+        self.size().len()
+    }
+
+    /// Returns the size of the atom, which has a 64 bit length if it doesn't fit into 32 bits.
+    fn size(&self) -> Size {
+        let data_len: u64 = self.data.iter().map(|d| Size::from(8 + d.len()).len()).sum();
 
         match &self.ident {
-            DataIdent::Fourcc(_) => parent_len + data_len,
+            DataIdent::Fourcc(_) => Size::from(data_len),
             DataIdent::Freeform { mean, name } => {
-                let mean_len = 12 + mean.len() as u64;
-                let name_len = 12 + name.len() as u64;
+                let mean_len = Size::from(4 + mean.len() as u64).len();
+                let name_len = Size::from(4 + name.len() as u64).len();
 
-                parent_len + mean_len + name_len + data_len
+                Size::from(mean_len + name_len + data_len)
             }
         }
     }
@@ -259,35 +263,23 @@ impl AtomData {
 
     /// Attempts to write the atom data to the writer.
     pub fn write(&self, writer: &mut impl Write) -> crate::Result<()> {
-        writer.write_all(&u32::to_be_bytes(self.len() as u32))?;
-
         match &self.ident {
-            DataIdent::Fourcc(ident) => writer.write_all(ident.deref())?,
-            _ => {
-                let (mean, name) = match &self.ident {
-                    DataIdent::Freeform { mean, name } => (mean.as_str(), name.as_str()),
-                    DataIdent::Fourcc(_) => unreachable!(),
-                };
-                writer.write_all(FREEFORM.deref())?;
-
-                let mean_len: u32 = 12 + mean.len() as u32;
-                writer.write_all(&u32::to_be_bytes(mean_len))?;
-                writer.write_all(MEAN.deref())?;
+            DataIdent::Fourcc(ident) => write_head(writer, Head::from(self.size(), *ident))?,
+            DataIdent::Freeform { mean, name } => {
+                write_head(writer, Head::from(self.size(), FREEFORM))?;
+
+                write_head(writer, Head::from(Size::from(4 + mean.len() as u64), MEAN))?;
                 writer.write_all(&[0u8; 4])?;
                 writer.write_all(mean.as_bytes())?;
 
-                let name_len: u32 = 12 + name.len() as u32;
-                writer.write_all(&u32::to_be_bytes(name_len))?;
-                writer.write_all(NAME.deref())?;
+                write_head(writer, Head::from(Size::from(4 + name.len() as u64), NAME))?;
                 writer.write_all(&[0u8; 4])?;
                 writer.write_all(name.as_bytes())?;
             }
         }
 
         for d in self.data.iter() {
-            let data_len: u32 = 16 + d.len() as u32;
-            writer.write_all(&u32::to_be_bytes(data_len))?;
-            writer.write_all(DATA.deref())?;
+            write_head(writer, Head::from(Size::from(8 + d.len()), DATA))?;
             d.write_typed(writer)?;
         }
 
-- 
2.43.0

