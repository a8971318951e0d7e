From 60a8e8e268459c89dbaa1239886b813c9996ac95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 01/32] fix: feed source i into header chain i

get_row_buffers took sources from the back of the list while numbering
chains from the front, so with several sources each one was driven
through the chain of another (whose sinks had seen another header).
---
 src/driver/driver.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/driver/driver.rs b/src/driver/driver.rs
index ced20b7..2f97c92 100644
--- a/src/driver/driver.rs
+++ b/src/driver/driver.rs
@@ -62,8 +62,8 @@ impl Driver {
 
     fn get_row_buffers(&mut self) -> CliResult<Vec<SourceRowBuffer>> {
         let mut row_buffers: Vec<SourceRowBuffer> = Vec::with_capacity(self.sources.len());
-        for i in 0..self.sources.len() {
-            let source = self.sources.pop().unwrap();
+        // source number i feeds header chain number i
+        for (i, source) in self.sources.drain(..).enumerate() {
             row_buffers.push(SourceRowBuffer::new(source, i, &self.timestamp_range)?);
         }
         Ok(row_buffers)
-- 
2.43.0


From 10012bdef8977ddb804365045802ce5f1d553d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 02/32] fix: do not panic on a source without rows in range

The driver unwrapped the current row of every source buffer, including
those of sources that are empty or have no row within the time bounds.
---
 src/driver/driver.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/driver/driver.rs b/src/driver/driver.rs
index 2f97c92..de97ed8 100644
--- a/src/driver/driver.rs
+++ b/src/driver/driver.rs
@@ -35,6 +35,14 @@ impl Driver {
     fn drive(&mut self) -> CliResult<()> {
         let mut row_buffers = self.get_row_buffers()?;
 
+        // sources without a single row in range are done already
+        for i in (0..row_buffers.len()).rev() {
+            if row_buffers[i].row().is_none() {
+                let mut row_buffer = row_buffers.remove(i);
+                self.flush(row_buffer.chain_id(), 0)?;
+            }
+        }
+
         // sort and output
         // all the sources are processed at the same time, but a row with min timestamp is output first
         let mut buffer_len = row_buffers.len();
-- 
2.43.0


From 0a6b9c5f3999941d695ba73330af7a202c137ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 03/32] fix: size the DC null bitset by the number of columns

The sink computed it from one column less than there are, so with a
column count of 8n + 1 one byte was missing and rows could not be read
back; it also underflowed with no or one column.
---
 src/util/dc_util.rs  | 2 +-
 src/write/dc_sink.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/dc_util.rs b/src/util/dc_util.rs
index 96258c3..ccd0a5c 100644
--- a/src/util/dc_util.rs
+++ b/src/util/dc_util.rs
@@ -22,7 +22,7 @@ pub enum DisplayHint {
 }
 
 pub fn get_bitset_bytes(field_count: usize) -> usize {
-    1 + ((field_count - 1) / 8)
+    (field_count + 7) / 8
 }
 
 // map for field types
diff --git a/src/write/dc_sink.rs b/src/write/dc_sink.rs
index 04fdc09..9023fa6 100644
--- a/src/write/dc_sink.rs
+++ b/src/write/dc_sink.rs
@@ -128,7 +128,7 @@ impl DCSink {
 impl HeaderSink for DCSink {
     fn process_header(mut self: Box<Self>, header: &mut Header) -> CliResult<Box<dyn DataSink>> {
         Self::write_header(&mut self, header)?;
-        let bitset_bytes = dc_util::get_bitset_bytes(header.field_types().len() - 1);
+        let bitset_bytes = dc_util::get_bitset_bytes(header.field_types().len());
         self.bitset_bytes = bitset_bytes;
         Ok(self.boxed())
     }
-- 
2.43.0


From 883e6a6185c0d86288b5d1abbbee87858421511d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 04/32] fix: report read errors and truncation of DC row
 timestamps

DCSource::next_row took any failure to read a timestamp, including I/O
errors, corrupt compressed data and a file cut within the timestamp,
for the end of the data and so silently dropped the remaining rows.
---
 src/source/dc_source.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/source/dc_source.rs b/src/source/dc_source.rs
index 5df54da..2ecee1e 100644
--- a/src/source/dc_source.rs
+++ b/src/source/dc_source.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::io::{self, Read};
+use std::io::{self, BufRead, Read};
 use std::str;
 
 use byteorder::{BigEndian, ReadBytesExt};
@@ -95,10 +95,16 @@ impl<R: io::Read> DCSource<R> {
     }
 
     fn next_row(&mut self) -> CliResult<Option<Row>> {
-        match self.reader.read_u64::<BigEndian>() {
-            Ok(i) => self.current_row.timestamp = i,
-            Err(_e) => return Ok(None),
-        };
+        // only the end of the data between two rows is a proper end
+        loop {
+            match self.reader.fill_buf() {
+                Ok(buf) if buf.is_empty() => return Ok(None),
+                Ok(_) => break,
+                Err(ref err) if err.kind() == io::ErrorKind::Interrupted => continue,
+                Err(err) => return Err(Error::from(err)),
+            }
+        }
+        self.current_row.timestamp = self.reader.read_u64::<BigEndian>()?;
 
         // bitset of null values
         let bitset_bytes = &mut self.bitset_bytes;
-- 
2.43.0


From c031a09478ef4c05b6c1bcbca4fc10c26d7ff3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 05/32] fix: reject malformed DC data instead of panicking

An unknown type string, invalid UTF-8 and a negative string size hit an
unwrap or a capacity overflow, and sizes and counts read from the file
were allocated upfront, however short the file was.
---
 src/source/dc_source.rs | 39 +++++++++++++++++++++------------------
 src/util/dc_util.rs     | 21 +++++++++++++++------
 2 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/source/dc_source.rs b/src/source/dc_source.rs
index 2ecee1e..17f6eac 100644
--- a/src/source/dc_source.rs
+++ b/src/source/dc_source.rs
@@ -1,6 +1,5 @@
 use std::collections::HashMap;
 use std::io::{self, BufRead, Read};
-use std::str;
 
 use byteorder::{BigEndian, ReadBytesExt};
 
@@ -51,13 +50,11 @@ impl<R: io::Read> DCSource<R> {
 
         let map_field_string = &FIELD_STRING_MAP_NAME;
         let field_count = reader.read_u32::<BigEndian>()? as usize;
-        let bitset_byte_count = dc_util::get_bitset_bytes(field_count);
-        let bitset_bytes: Vec<u8> = vec![0 as u8; bitset_byte_count];
-
         // field descriptor (header)
-        let mut field_names: Vec<String> = Vec::with_capacity(field_count);
-        let mut field_types: Vec<FieldType> = Vec::with_capacity(field_count);
-        let mut field_values: Vec<FieldValue> = Vec::with_capacity(field_count);
+        // note that field count is untrusted, so don't allocate for it upfront
+        let mut field_names: Vec<String> = Vec::new();
+        let mut field_types: Vec<FieldType> = Vec::new();
+        let mut field_values: Vec<FieldValue> = Vec::new();
         for i in 0..field_count {
             let field_descriptor = dc_util::FieldDescriptor::new(&mut reader)?;
             let mut name = field_descriptor.get_name().to_string();
@@ -66,12 +63,15 @@ impl<R: io::Read> DCSource<R> {
                 name = format!("col_{}", i);
             }
             field_names.push(name);
-            field_types.push(
-                map_field_string
-                    .get(field_descriptor.get_type_string())
-                    .unwrap()
-                    .clone(),
-            );
+            match map_field_string.get(field_descriptor.get_type_string()) {
+                Some(field_type) => field_types.push(field_type.clone()),
+                None => {
+                    return Err(Error::from(format!(
+                        "DCReader -- unknown field type - {:?}",
+                        field_descriptor.get_type_string()
+                    )))
+                }
+            }
             field_values.push(FieldValue::None);
         }
 
@@ -79,6 +79,7 @@ impl<R: io::Read> DCSource<R> {
         let header: Header = Header::new(field_names, field_types);
 
         // Row
+        let bitset_bytes: Vec<u8> = vec![0 as u8; dc_util::get_bitset_bytes(field_count)];
         let timestamp = 0 as u64;
         let current_row = Row {
             timestamp,
@@ -169,13 +170,15 @@ impl<R: io::Read> DCSource<R> {
         let data_size_short = reader.read_i16::<BigEndian>()?;
         let data_size = match data_size_short {
             -1 => reader.read_u32::<BigEndian>()?,
+            _ if data_size_short < 0 => {
+                return Err(Error::from(format!(
+                    "DCReader -- negative string size - {}",
+                    data_size_short
+                )))
+            }
             _ => data_size_short as u32,
         };
-        let mut string: Vec<u8> = vec![0; data_size as usize];
-        let string = string.as_mut_slice();
-        reader.read_exact(string)?;
-
-        Ok(str::from_utf8_mut(string).unwrap().to_string())
+        dc_util::read_utf8(reader, data_size)
     }
 }
 
diff --git a/src/util/dc_util.rs b/src/util/dc_util.rs
index ccd0a5c..4b2aecc 100644
--- a/src/util/dc_util.rs
+++ b/src/util/dc_util.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use std::io::{self, BufWriter, Write};
+use std::io::{self, BufWriter, Read, Write};
 use std::string::String;
 
 use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
@@ -105,11 +105,20 @@ impl FieldDescriptor {
 
     fn get_sized_string<R: io::BufRead>(mut rdr: R) -> CliResult<String> {
         let size = rdr.read_u32::<BigEndian>()?;
-        let mut string_bytes: Vec<u8> = Vec::with_capacity(size as usize);
-        for _i in 0..size as usize {
-            string_bytes.push(rdr.read_u8()?);
-        }
-        Ok(String::from_utf8(string_bytes).unwrap().to_string())
+        read_utf8(&mut rdr, size)
+    }
+}
+
+/// size comes from the data and so is untrusted; memory is allocated only for bytes there are
+pub fn read_utf8<R: io::Read>(reader: &mut R, size: u32) -> CliResult<String> {
+    let mut bytes: Vec<u8> = Vec::new();
+    reader.take(u64::from(size)).read_to_end(&mut bytes)?;
+    if bytes.len() < size as usize {
+        return Err(Error::from(io::Error::from(io::ErrorKind::UnexpectedEof)));
+    }
+    match String::from_utf8(bytes) {
+        Ok(string) => Ok(string),
+        Err(err) => Err(Error::from(format!("DCReader -- invalid text - {}", err))),
     }
 }
 
-- 
2.43.0


From 065728db0fd7a92882e29c98dd8a9bfc16b4e42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 06/32] fix: count the headers of zip extra fields

read_extra_field did not count the four bytes of header id and data size
of each extra field towards the total, so it went on to parse whatever
follows the extra fields of a central header as further ones, failing on
well-formed archives or taking sizes and offsets from there.
---
 src/decompress/zip.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decompress/zip.rs b/src/decompress/zip.rs
index 2d0e916..74cac3d 100644
--- a/src/decompress/zip.rs
+++ b/src/decompress/zip.rs
@@ -349,7 +349,7 @@ impl CentralDirHeader {
     ) -> io::Result<(u64, u64, u64)> {
         let mut total_bytes_read = 0;
 
-        while total_bytes_read < extra_field_length {
+        while total_bytes_read + 4 <= extra_field_length {
             let header_id = reader.read_u16::<LittleEndian>()?;
             let data_size = reader.read_u16::<LittleEndian>()? as i64;
 
@@ -377,7 +377,7 @@ impl CentralDirHeader {
             }
             reader.seek(SeekFrom::Current(data_size - data_read))?;
 
-            total_bytes_read += data_size as u64;
+            total_bytes_read += 4 + data_size as u64; // includes header id and data size
         }
 
         Ok((uncompressed_size, compressed_size, local_header_offset))
-- 
2.43.0


From 09b56f42220397dafa88512ffd7f975cb17bb806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 07/32] fix: find the end of central directory when the zip
 comment holds its signature

The last occurrence of the signature was taken for the record, even
within the archive comment. Prefer the record whose comment extends
precisely to the end of the file.
---
 src/decompress/zip.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/decompress/zip.rs b/src/decompress/zip.rs
index 74cac3d..986e681 100644
--- a/src/decompress/zip.rs
+++ b/src/decompress/zip.rs
@@ -119,15 +119,35 @@ fn find_eocdr_and_prepare_to_read<T: Read + io::Seek>(reader: &mut T) -> io::Res
     let file_size = reader.seek(io::SeekFrom::End(0))?;
     let max_back = std::cmp::min(file_size, MAX_EOCDR_SEARCH_BACK_OFFSET as u64) as i64;
 
+    let mut best_pos = None;
     let mut pos = 4; // '4' to make sure we can read the signature
-    while pos < max_back {
+    let max_record_pos = SIGNATURE_SIZE
+        + END_OF_CENTRAL_DIRECTORY_RECORD_FIXED_FIELDS_SIZE
+        + u16::max_value() as i64;
+    while pos < max_back && (best_pos.is_none() || pos <= max_record_pos) {
         reader.seek(io::SeekFrom::End(-pos))?;
         if reader.read_u32::<LittleEndian>()? == END_OF_CENTRAL_DIR_RECORD_SIGNATURE {
-            return Ok(());
+            // signature can also occur inside of the archive comment, so prefer the record
+            // whose comment extends precisely to the end of the file
+            let comment_length =
+                pos - SIGNATURE_SIZE - END_OF_CENTRAL_DIRECTORY_RECORD_FIXED_FIELDS_SIZE;
+            if comment_length >= 0 {
+                reader.seek(io::SeekFrom::End(-comment_length - 2))?;
+                if reader.read_u16::<LittleEndian>()? as i64 == comment_length {
+                    best_pos = Some(pos);
+                    break;
+                }
+            }
+            best_pos = best_pos.or(Some(pos));
         }
         pos += 1;
     }
 
+    if let Some(pos) = best_pos {
+        reader.seek(io::SeekFrom::End(SIGNATURE_SIZE - pos))?;
+        return Ok(());
+    }
+
     Err(Error::new(
         ErrorKind::InvalidData,
         "end of central directory signature missing",
-- 
2.43.0


From 34d165df7d02b5c426cb21c3074427d2cb7a60a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 08/32] fix: accept zip64 archives that leave the classic
 counts to the zip64 record

In an archive with zip64 records the entry counts and disk numbers of the
classic end record may be 0xffff (some writers always do so), but these
archives were rejected as having more than one file.
---
 src/decompress/zip.rs | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/decompress/zip.rs b/src/decompress/zip.rs
index 986e681..b781fa4 100644
--- a/src/decompress/zip.rs
+++ b/src/decompress/zip.rs
@@ -170,13 +170,16 @@ fn get_start_of_central_dir_offset<R: Read + Seek>(
     {
         // kinda weird, but possibly just a very small compressed file with no zip64 records, so
         // assume it's a file with no zip64 records and fall back to end of central directory record
+        eocdr.check(false)?;
         return Ok(eocdr.start_of_central_directory_offset as u64);
     }
 
     if reader.read_u32::<LittleEndian>()? != ZIP64_END_OF_CENTRAL_DIR_LOCATOR_SIGNATURE {
+        eocdr.check(false)?;
         return Ok(eocdr.start_of_central_directory_offset as u64);
     }
 
+    eocdr.check(true)?;
     let zip64_eocdr_offset = read_zip64_eocdl_and_get_eocdr_offset(reader)?;
     reader.seek(io::SeekFrom::Start(zip64_eocdr_offset))?;
     if reader.read_u32::<LittleEndian>()? != ZIP64_END_OF_CENTRAL_DIR_RECORD_SIGNATURE {
@@ -235,6 +238,10 @@ fn read_zip64_eocdr_and_get_central_dir_offset<T: Read + io::Seek>(
 }
 
 struct EndOfCentralDirRecord {
+    pub disk_number: u16,
+    pub disk_number_with_start_of_central_directory: u16,
+    pub number_of_central_directory_entries_on_this_disk: u16,
+    pub total_number_of_central_directory_entries: u16,
     pub central_directory_size: u32,
     pub start_of_central_directory_offset: u32,
     pub zip_file_comment_length: i64,
@@ -251,8 +258,23 @@ impl EndOfCentralDirRecord {
         let zip_file_comment_length = reader.read_u16::<LittleEndian>()? as i64;
         reader.seek(SeekFrom::Current(zip_file_comment_length))?;
 
-        if total_number_of_central_directory_entries != 1
-            || number_of_central_directory_entries_on_this_disk != 1
+        Ok(EndOfCentralDirRecord {
+            disk_number,
+            disk_number_with_start_of_central_directory,
+            number_of_central_directory_entries_on_this_disk,
+            total_number_of_central_directory_entries,
+            central_directory_size,
+            start_of_central_directory_offset,
+            zip_file_comment_length,
+        })
+    }
+
+    /// with zip64 records any value can be set to all ones to point to its zip64 version
+    pub fn check(&self, is_zip64: bool) -> io::Result<()> {
+        let is_value = |field: u16, value: u16| field == value || (is_zip64 && field == 0xffff);
+
+        if !is_value(self.total_number_of_central_directory_entries, 1)
+            || !is_value(self.number_of_central_directory_entries_on_this_disk, 1)
         {
             return Err(Error::new(
                 ErrorKind::InvalidData,
@@ -260,18 +282,16 @@ impl EndOfCentralDirRecord {
             ));
         }
 
-        if disk_number != 0 || disk_number_with_start_of_central_directory != 0 {
+        if !is_value(self.disk_number, 0)
+            || !is_value(self.disk_number_with_start_of_central_directory, 0)
+        {
             return Err(Error::new(
                 ErrorKind::InvalidData,
                 "multi-disk zip archives not supported",
             ));
         }
 
-        Ok(EndOfCentralDirRecord {
-            central_directory_size,
-            start_of_central_directory_offset,
-            zip_file_comment_length,
-        })
+        Ok(())
     }
 }
 
-- 
2.43.0


From 5168f55b10744ae470ec02f90a8477f756b511ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 09/32] fix: read all members of a gzip file

A gzip file may consist of several members (bgzip, pigz, concatenated
files); all but the first one were silently dropped.
---
 src/decompress/decompress.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decompress/decompress.rs b/src/decompress/decompress.rs
index b081007..7bd75c0 100644
--- a/src/decompress/decompress.rs
+++ b/src/decompress/decompress.rs
@@ -2,7 +2,7 @@ use std::io;
 use std::io::{BufReader, Read};
 
 use byteorder::{BigEndian, ReadBytesExt};
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use lz_fear::LZ4FrameReader;
 
 use paku::lz4_jblock::Lz4JBlockReader;
@@ -116,7 +116,7 @@ pub fn decompress(
 }
 
 fn decompress_gz(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let decoder = GzDecoder::new(reader);
+    let decoder = MultiGzDecoder::new(reader);
     Ok(Box::new(decoder))
 }
 
-- 
2.43.0


From a088743eb10c3d3ad81fbd239ee73057f8b75000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 10/32] fix: read all frames of a zstd file and verify content
 checksums

Only the first of several frames (as written by pzstd or concatenation)
was read, silently dropping the rest, and the optional content checksum
was read but never compared, so altered data went unnoticed.
---
 src/decompress/zst.rs | 58 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/src/decompress/zst.rs b/src/decompress/zst.rs
index 3d6989a..44cf318 100644
--- a/src/decompress/zst.rs
+++ b/src/decompress/zst.rs
@@ -1,12 +1,12 @@
 use ruzstd::{BlockDecodingStrategy, FrameDecoder};
-use std::io::{self, Read};
+use std::io::{self, BufRead, Read};
 
 pub struct ZstReader<R> {
     inner: R,
     decoder: FrameDecoder,
 }
 
-impl<R: Read> ZstReader<R> {
+impl<R: BufRead> ZstReader<R> {
     pub fn new(reader: R) -> io::Result<ZstReader<R>> {
         let mut zst_reader = ZstReader {
             inner: reader,
@@ -22,28 +22,56 @@ impl<R: Read> ZstReader<R> {
             Err(e) => Err(io::Error::new(io::ErrorKind::Other, e)),
         }
     }
+
+    fn check_content_checksum(&self) -> io::Result<()> {
+        let expected = self.decoder.get_checksum_from_data();
+        if expected.is_some() && expected != self.decoder.get_calculated_checksum() {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "zstd content checksum mismatch",
+            ));
+        }
+        Ok(())
+    }
 }
 
-impl<R: Read> Read for ZstReader<R> {
+impl<R: BufRead> Read for ZstReader<R> {
     /// this impl works best with buffered reader on top of it, since it
     /// tries to fill the buf as much as possible by potentially decoding
     /// on every invocation
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
-        while !self.decoder.is_finished() {
-            let bytes_available = self.decoder.can_collect();
-            if bytes_available >= buf.len() {
-                break;
+        if buf.is_empty() {
+            return Ok(0);
+        }
+
+        loop {
+            while !self.decoder.is_finished() {
+                let bytes_available = self.decoder.can_collect();
+                if bytes_available >= buf.len() {
+                    break;
+                }
+
+                let additional_bytes_needed = buf.len() - bytes_available;
+                if let Err(e) = self.decoder.decode_blocks(
+                    &mut self.inner,
+                    BlockDecodingStrategy::UptoBytes(additional_bytes_needed),
+                ) {
+                    return Err(io::Error::new(io::ErrorKind::Other, e));
+                }
             }
 
-            let additional_bytes_needed = buf.len() - bytes_available;
-            if let Err(e) = self.decoder.decode_blocks(
-                &mut self.inner,
-                BlockDecodingStrategy::UptoBytes(additional_bytes_needed),
-            ) {
-                return Err(io::Error::new(io::ErrorKind::Other, e));
+            let bytes_read = self.decoder.read(buf)?;
+            if bytes_read > 0 {
+                return Ok(bytes_read);
             }
-        }
 
-        self.decoder.read(buf)
+            // got to the end of the frame, see if there is another one
+            self.check_content_checksum()?;
+            if self.inner.fill_buf()?.is_empty() {
+                return Ok(0);
+            }
+            self.decoder = FrameDecoder::new();
+            self.init()?;
+        }
     }
 }
-- 
2.43.0


From 6cb261b5aab6945b4a9681db578f220bde9b8034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 11/32] fix: read all frames of an lz4 file

Only the first of several concatenated frames was read, silently
dropping the rest.
---
 src/decompress/decompress.rs | 11 ++------
 src/decompress/lz4.rs        | 54 ++++++++++++++++++++++++++++++++++++
 src/decompress/mod.rs        |  1 +
 3 files changed, 58 insertions(+), 8 deletions(-)
 create mode 100644 src/decompress/lz4.rs

diff --git a/src/decompress/decompress.rs b/src/decompress/decompress.rs
index 7bd75c0..444ad25 100644
--- a/src/decompress/decompress.rs
+++ b/src/decompress/decompress.rs
@@ -3,11 +3,11 @@ use std::io::{BufReader, Read};
 
 use byteorder::{BigEndian, ReadBytesExt};
 use flate2::read::MultiGzDecoder;
-use lz_fear::LZ4FrameReader;
 
 use paku::lz4_jblock::Lz4JBlockReader;
 use paku::lzf::LzfReader;
 
+use crate::decompress::lz4::Lz4FramesReader;
 use crate::decompress::zst::ZstReader;
 use crate::error::{CliResult, Error};
 use crate::util::reader::{ChopperBufPreviewer, ChopperBufReader};
@@ -130,13 +130,8 @@ fn decompress_lz4(previewer: ChopperBufPreviewer<Box<dyn Read>>) -> CliResult<Bo
 }
 
 fn decompress_lz4_frame(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let frame_reader = match LZ4FrameReader::new(reader) {
-        Ok(frame_reader) => frame_reader,
-        Err(e) => {
-            return CliResult::Err(Error::Io(io::Error::new(io::ErrorKind::Other, e)));
-        }
-    };
-    Ok(Box::new(frame_reader.into_read()))
+    let decoder = Lz4FramesReader::new(reader)?;
+    Ok(Box::new(decoder))
 }
 
 fn decompress_lz4_jblock(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
diff --git a/src/decompress/lz4.rs b/src/decompress/lz4.rs
new file mode 100644
index 0000000..443ca6d
--- /dev/null
+++ b/src/decompress/lz4.rs
@@ -0,0 +1,54 @@
+use std::cell::RefCell;
+use std::io::{self, BufRead, Read};
+use std::rc::Rc;
+
+use lz_fear::framed::{LZ4FrameIoReader, LZ4FrameReader};
+
+/// lz4 file can consist of several frames one after another
+pub struct Lz4FramesReader<R: BufRead> {
+    inner: SharedReader<R>,
+    frame: LZ4FrameIoReader<'static, SharedReader<R>>,
+}
+
+impl<R: BufRead> Lz4FramesReader<R> {
+    pub fn new(reader: R) -> io::Result<Lz4FramesReader<R>> {
+        let inner = SharedReader(Rc::new(RefCell::new(reader)));
+        let frame = Self::next_frame(&inner)?;
+        Ok(Lz4FramesReader { inner, frame })
+    }
+
+    fn next_frame(
+        inner: &SharedReader<R>,
+    ) -> io::Result<LZ4FrameIoReader<'static, SharedReader<R>>> {
+        match LZ4FrameReader::new(SharedReader(inner.0.clone())) {
+            Ok(frame_reader) => Ok(frame_reader.into_read()),
+            Err(e) => Err(io::Error::new(io::ErrorKind::Other, e)),
+        }
+    }
+}
+
+impl<R: BufRead> Read for Lz4FramesReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        loop {
+            let bytes_read = self.frame.read(buf)?;
+            if bytes_read > 0 || buf.is_empty() {
+                return Ok(bytes_read);
+            }
+
+            // got to the end of the frame, see if there is another one
+            if self.inner.0.borrow_mut().fill_buf()?.is_empty() {
+                return Ok(0);
+            }
+            self.frame = Self::next_frame(&self.inner)?;
+        }
+    }
+}
+
+/// lets each of the frame readers in turn own a reader of the same file
+struct SharedReader<R>(Rc<RefCell<R>>);
+
+impl<R: Read> Read for SharedReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        self.0.borrow_mut().read(buf)
+    }
+}
diff --git a/src/decompress/mod.rs b/src/decompress/mod.rs
index b7b7a1f..c1e6a0f 100644
--- a/src/decompress/mod.rs
+++ b/src/decompress/mod.rs
@@ -1,4 +1,5 @@
 mod crc32;
 pub mod decompress;
+pub mod lz4;
 pub mod zip;
 mod zst;
-- 
2.43.0


From 34ed64cc2d274a65f6a1ff5999c72fe3af1442d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:01 +0000
Subject: [PATCH 12/32] fix: report lz4 block data that is cut short between
 two blocks

The format ends with an empty block, but data ending without one was
accepted as complete.
---
 src/decompress/decompress.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/decompress/decompress.rs b/src/decompress/decompress.rs
index 444ad25..d3d8c14 100644
--- a/src/decompress/decompress.rs
+++ b/src/decompress/decompress.rs
@@ -135,10 +135,27 @@ fn decompress_lz4_frame(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Bo
 }
 
 fn decompress_lz4_jblock(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let decoder = Lz4JBlockReader::new(reader, true, true);
+    let decoder = Lz4JBlockReader::new(EndMarkRequired(reader), true, true);
     Ok(Box::new(decoder))
 }
 
+/// lz4 block format ends with an empty block, past which the decoder doesn't read; so if decoder
+/// ever gets to the end of the data then it was cut short, which it doesn't check for by itself
+struct EndMarkRequired<R>(R);
+
+impl<R: Read> Read for EndMarkRequired<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let bytes_read = self.0.read(buf)?;
+        if bytes_read == 0 && !buf.is_empty() {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "lz4 block data ends without an end mark",
+            ));
+        }
+        Ok(bytes_read)
+    }
+}
+
 fn decompress_lzf(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
     let decoder = LzfReader::new(reader);
     Ok(Box::new(decoder))
-- 
2.43.0


From c416b59f2a44d1f722fc37ba6a7974b5f1231be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 13/32] fix: report a missing timestamp column instead of
 panicking

A timestamp column index outside of the record, whether given by the
user or because a row is too short, hit an unwrap.
---
 src/source/csv_timestamp.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/source/csv_timestamp.rs b/src/source/csv_timestamp.rs
index 748517f..e3d9286 100644
--- a/src/source/csv_timestamp.rs
+++ b/src/source/csv_timestamp.rs
@@ -85,7 +85,7 @@ pub fn get_timestamp(
     timestamp_fmt: &TimestampFmt,
     timezone: &ChopperTz,
 ) -> CliResult<Nanos> {
-    let timestamp = get_timestamp_string(record, timestamp_col);
+    let timestamp = get_timestamp_string(record, timestamp_col)?;
 
     let timestamp = match timestamp_fmt {
         TimestampFmt::Units(units) => {
@@ -152,7 +152,7 @@ fn get_timestamp_fmt_from_user_spec(
     format: String,
     timezone: &ChopperTz,
 ) -> CliResult<TimestampFmt> {
-    let timestamp = get_timestamp_string(first_row, timestamp_col);
+    let timestamp = get_timestamp_string(first_row, timestamp_col)?;
 
     if let Ok(_) = DateTime::parse_from_str(&timestamp, &format) {
         Ok(TimestampFmt::DateTimeIncludesTz(format))
@@ -172,21 +172,35 @@ fn get_timestamp_fmt_from_user_spec(
     }
 }
 
-fn get_timestamp_string(record: &csv::StringRecord, timestamp_col: &TimestampCol) -> String {
+fn get_timestamp_string(
+    record: &csv::StringRecord,
+    timestamp_col: &TimestampCol,
+) -> CliResult<String> {
     match timestamp_col {
-        TimestampCol::Index(i) => record.get(*i).unwrap().to_string(),
+        TimestampCol::Index(i) => Ok(get_timestamp_field(record, *i)?.to_string()),
         TimestampCol::DateTimeIndex(d, t) => {
-            let date = record.get(*d).unwrap();
-            let time = record.get(*t).unwrap();
+            let date = get_timestamp_field(record, *d)?;
+            let time = get_timestamp_field(record, *t)?;
             let mut timestamp = String::with_capacity(date.len() + 1 + time.len());
             timestamp.push_str(date);
             timestamp.push('#');
             timestamp.push_str(time);
-            timestamp
+            Ok(timestamp)
         }
     }
 }
 
+fn get_timestamp_field(record: &csv::StringRecord, idx: usize) -> CliResult<&str> {
+    match record.get(idx) {
+        Some(field) => Ok(field),
+        None => Err(Error::from(format!(
+            "Cannot find timestamp column with index {} in a row with {} columns.",
+            idx,
+            record.len()
+        ))),
+    }
+}
+
 fn get_timestamp_col(
     header: &Header,
     timestamp_col_config: &TimestampColConfig,
@@ -332,7 +346,7 @@ fn get_timestamp_fmt_auto_with_index(
         return Ok(TimestampFmt::Units(units));
     }
 
-    let timestamp = first_row.get(time_idx).unwrap();
+    let timestamp = get_timestamp_field(first_row, time_idx)?;
 
     for format in &TIME_FORMATS_WITH_TZ {
         if DateTime::parse_from_str(timestamp, format).is_ok() {
@@ -387,8 +401,8 @@ fn get_timestamp_fmt_auto_with_datetimeindex(
     timezone: &ChopperTz,
     first_row: &csv::StringRecord,
 ) -> CliResult<TimestampFmt> {
-    let date = first_row.get(date_idx).unwrap();
-    let time = first_row.get(time_idx).unwrap();
+    let date = get_timestamp_field(first_row, date_idx)?;
+    let time = get_timestamp_field(first_row, time_idx)?;
 
     let mut timestamp = String::with_capacity(date.len() + 1 + time.len());
     timestamp.push_str(date);
-- 
2.43.0


From 94728b40c44c4ea8e57b18d34e6f9e665b1b63cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 14/32] fix: keep csv rows in line with the header when column
 counts differ

A row shorter than the one before it kept that row's values for the
columns it lacks, a longer one (or a header line with more columns than
the first row) made row and header disagree or panicked. Missing values
are now none, unnamed columns get the default name and a row with more
columns than expected is an error.
---
 src/source/csv_source.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/source/csv_source.rs b/src/source/csv_source.rs
index 944b6a2..ec0712a 100644
--- a/src/source/csv_source.rs
+++ b/src/source/csv_source.rs
@@ -5,7 +5,7 @@ use csv::{self, Trim};
 use crate::chopper::chopper::Source;
 use crate::chopper::types::{FieldType, FieldValue, Header, Nanos, Row};
 use crate::cli::util::YesNoAuto;
-use crate::error::CliResult;
+use crate::error::{CliResult, Error};
 use crate::source::csv_configs::CSVInputConfig;
 use crate::source::csv_timestamp::{self, TimestampCol, TimestampFmt};
 use crate::util::csv_util;
@@ -61,7 +61,6 @@ impl CSVSource {
 
         // get first row
         let first_row: csv::StringRecord = reader.records().next().unwrap()?;
-        let field_count = first_row.len();
 
         // get field names if available
         let mut field_names: Vec<String> = Vec::new();
@@ -70,12 +69,12 @@ impl CSVSource {
             for i in header_record {
                 field_names.push(i.to_string());
             }
-        } else {
-            // if field name is not given, assign default name - "col_x"
-            for i in 0..field_count {
-                field_names.push(format!("col_{}", i));
-            }
         }
+        // if field name is not given, assign default name - "col_x"
+        for i in field_names.len()..first_row.len() {
+            field_names.push(format!("col_{}", i));
+        }
+        let field_count = field_names.len();
 
         // initialize next_row
         let timestamp: Nanos = 0;
@@ -114,9 +113,20 @@ impl CSVSource {
     }
 
     fn update_row(&mut self, next_record: csv::StringRecord) -> CliResult<()> {
-        for i in 0..next_record.len() {
-            self.next_row.field_values[i] =
-                FieldValue::String(next_record.get(i).unwrap().to_string());
+        let field_count = self.next_row.field_values.len();
+        if next_record.len() > field_count {
+            return Err(Error::from(format!(
+                "CSVSource -- row has {} columns, but only {} are expected",
+                next_record.len(),
+                field_count
+            )));
+        }
+        for i in 0..field_count {
+            // values missing at the end of a short row must not be those of a row before it
+            self.next_row.field_values[i] = match next_record.get(i) {
+                Some(value) => FieldValue::String(value.to_string()),
+                None => FieldValue::None,
+            };
         }
 
         self.next_row.timestamp = csv_timestamp::get_timestamp(
-- 
2.43.0


From c2d6ce9cbcb60f6cd49e5c79b4ebb7b9b3822466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 15/32] fix: accept csv input without any rows

Opening an empty file or one that only has a header line panicked.
---
 src/source/csv_source.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/source/csv_source.rs b/src/source/csv_source.rs
index ec0712a..522916f 100644
--- a/src/source/csv_source.rs
+++ b/src/source/csv_source.rs
@@ -7,7 +7,7 @@ use crate::chopper::types::{FieldType, FieldValue, Header, Nanos, Row};
 use crate::cli::util::YesNoAuto;
 use crate::error::{CliResult, Error};
 use crate::source::csv_configs::CSVInputConfig;
-use crate::source::csv_timestamp::{self, TimestampCol, TimestampFmt};
+use crate::source::csv_timestamp::{self, TimestampCol, TimestampFmt, TimestampUnits};
 use crate::util::csv_util;
 use crate::util::reader::{ChopperBufPreviewer, ChopperBufReader};
 use crate::util::tz::ChopperTz;
@@ -60,7 +60,7 @@ impl CSVSource {
             .from_reader(reader);
 
         // get first row
-        let first_row: csv::StringRecord = reader.records().next().unwrap()?;
+        let first_row: Option<csv::StringRecord> = reader.records().next().transpose()?;
 
         // get field names if available
         let mut field_names: Vec<String> = Vec::new();
@@ -71,7 +71,7 @@ impl CSVSource {
             }
         }
         // if field name is not given, assign default name - "col_x"
-        for i in field_names.len()..first_row.len() {
+        for i in field_names.len()..first_row.as_ref().map_or(0, |row| row.len()) {
             field_names.push(format!("col_{}", i));
         }
         let field_count = field_names.len();
@@ -88,13 +88,20 @@ impl CSVSource {
 
         let timestamp_config = csv_config.timestamp_config();
         let timezone = timestamp_config.timezone();
-        let (timestamp_col, timestamp_fmt) = csv_timestamp::get_timestamp_col_and_fmt(
-            &header,
-            &first_row,
-            timestamp_config.timestamp_col(),
-            timestamp_config.timestamp_fmt(),
-            timezone,
-        )?;
+        let (timestamp_col, timestamp_fmt) = match &first_row {
+            Some(first_row) => csv_timestamp::get_timestamp_col_and_fmt(
+                &header,
+                first_row,
+                timestamp_config.timestamp_col(),
+                timestamp_config.timestamp_fmt(),
+                timezone,
+            )?,
+            // doesn't really matter, since there are no rows, just use something
+            None => (
+                TimestampCol::Index(0),
+                TimestampFmt::Units(TimestampUnits::Nanos),
+            ),
+        };
 
         let mut csv_reader = CSVSource {
             reader,
@@ -103,11 +110,13 @@ impl CSVSource {
             timestamp_fmt,
             timezone: timezone.clone(),
             next_row,
-            has_next_row: true,
+            has_next_row: first_row.is_some(),
         };
 
         // update next_row with first row
-        csv_reader.update_row(first_row)?;
+        if let Some(first_row) = first_row {
+            csv_reader.update_row(first_row)?;
+        }
 
         Ok(csv_reader)
     }
-- 
2.43.0


From d56c6dae77bb1781828db47ad6032ff938044c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 16/32] fix: use the configured delimiter in the csv header
 line too

Rows were separated by the configured delimiter, but the header line
always by commas (with a stray one if there are no columns).
---
 src/write/csv_sink.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/write/csv_sink.rs b/src/write/csv_sink.rs
index 39253ee..08265de 100644
--- a/src/write/csv_sink.rs
+++ b/src/write/csv_sink.rs
@@ -36,17 +36,19 @@ impl CSVSink {
     fn write_csv_header(&mut self, header: &mut Header) -> CliResult<()> {
         let writer = &mut self.writer;
         let field_name = header.field_names().clone();
+        let delimiter = self.csv_output_config.delimiter();
         let mut first = true;
 
         if self.csv_output_config.print_time_col() {
-            write!(writer, "{},", self.csv_output_config.time_col_name())?;
+            write!(writer, "{}", self.csv_output_config.time_col_name())?;
+            first = false;
         }
         for name in field_name {
             if first {
                 write!(writer, "{}", name)?;
                 first = false;
             } else {
-                write!(writer, ",{}", name)?;
+                write!(writer, "{}{}", delimiter, name)?;
             }
         }
         write!(writer, "\n")?;
-- 
2.43.0


From c0ce5a4157d183adc046672fc1513d5fbafec5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 17/32] fix: write NaN and infinities to csv as such

dtoa doesn't support them and printed unrelated large numbers, such as
2.696539702293474e308 for NaN.
---
 src/write/csv_sink.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/write/csv_sink.rs b/src/write/csv_sink.rs
index 08265de..82676f4 100644
--- a/src/write/csv_sink.rs
+++ b/src/write/csv_sink.rs
@@ -116,9 +116,12 @@ impl DataSink for CSVSink {
                     ))
                 }
                 FieldValue::Char(x) => write!(self.writer, "{}", x)?,
+                // dtoa only supports finite values
+                FieldValue::Double(x) if !x.is_finite() => write!(self.writer, "{}", x)?,
                 FieldValue::Double(x) => {
                     dtoa::write(&mut self.writer, *x)?;
                 }
+                FieldValue::Float(x) if !x.is_finite() => write!(self.writer, "{}", x)?,
                 FieldValue::Float(x) => {
                     dtoa::write(&mut self.writer, *x)?;
                 }
-- 
2.43.0


From 662e8603705182f2c7d4a72188a784b9dabbe4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 18/32] fix: count only actual delimiters when guessing the csv
 delimiter

Characters beyond ASCII were truncated to a byte, so that for instance
U+0120 counted as a space and U+042C as a comma.
---
 src/util/csv_util.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/csv_util.rs b/src/util/csv_util.rs
index 581611f..25b8fee 100644
--- a/src/util/csv_util.rs
+++ b/src/util/csv_util.rs
@@ -36,7 +36,9 @@ pub fn guess_delimiter(row: &str, possible_delimiters: &[u8]) -> u8 {
     }
 
     for c in row.chars() {
-        counts.entry(c as u8).and_modify(|count| *count += 1);
+        if c.is_ascii() {
+            counts.entry(c as u8).and_modify(|count| *count += 1);
+        }
     }
 
     let mut sorted = possible_delimiters.to_vec();
-- 
2.43.0


From ca0367c69bdf2310b1406b4d41c36a170a795291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 19/32] fix: report timestamps that can't be represented as
 nanos

Times before 1970 wrapped around to far in the future, times past 2262
panicked although nanos reach until 2554, and large epoch values
overflowed when converted to nanos.
---
 src/source/csv_timestamp.rs | 30 ++++++++++++++++++------------
 src/util/timestamp_util.rs  | 19 ++++++++++++++++---
 2 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/source/csv_timestamp.rs b/src/source/csv_timestamp.rs
index e3d9286..b30f606 100644
--- a/src/source/csv_timestamp.rs
+++ b/src/source/csv_timestamp.rs
@@ -5,6 +5,7 @@ use chrono::{DateTime, NaiveDate, NaiveDateTime};
 use crate::chopper::types::{Header, Nanos};
 use crate::error::{CliResult, Error};
 use crate::source::csv_configs::{DateColIdx, TimeColIdx, TimestampColConfig, TimestampFmtConfig};
+use crate::util::timestamp_util::datetime_to_nanos;
 use crate::util::tz::ChopperTz;
 
 // https://docs.rs/chrono/0.4/chrono/format/strftime/index.html
@@ -93,28 +94,33 @@ pub fn get_timestamp(
                 Ok(ts) => ts,
                 Err(err) => return Err(Error::Custom(err.to_string())),
             };
-            match units {
-                TimestampUnits::Seconds => timestamp * 1_000_000_000,
-                TimestampUnits::Millis => timestamp * 1_000_000,
-                TimestampUnits::Micros => timestamp * 1_000,
-                TimestampUnits::Nanos => timestamp,
+            let nanos_per_unit: u64 = match units {
+                TimestampUnits::Seconds => 1_000_000_000,
+                TimestampUnits::Millis => 1_000_000,
+                TimestampUnits::Micros => 1_000,
+                TimestampUnits::Nanos => 1,
+            };
+            match timestamp.checked_mul(nanos_per_unit) {
+                Some(ts) => ts,
+                None => {
+                    return Err(Error::from(format!(
+                        "Timestamp {} is out of range of supported timestamps.",
+                        timestamp
+                    )))
+                }
             }
         }
         TimestampFmt::DateTimeIncludesTz(format) => {
-            DateTime::parse_from_str(&timestamp, format)?.timestamp_nanos() as u64
+            datetime_to_nanos(&DateTime::parse_from_str(&timestamp, format)?)?
         }
         TimestampFmt::DateTimeNeedsExternalTz(format) => {
             let naive_date_time = NaiveDateTime::parse_from_str(&timestamp, format)?;
-            timezone
-                .from_local_datetime(&naive_date_time)?
-                .timestamp_nanos() as u64
+            datetime_to_nanos(&timezone.from_local_datetime(&naive_date_time)?)?
         }
         TimestampFmt::DateNeedsExternalTz(format) => {
             let naive_date = NaiveDate::parse_from_str(&timestamp, format)?;
             let naive_date_time = naive_date.and_hms(0, 0, 0);
-            timezone
-                .from_local_datetime(&naive_date_time)?
-                .timestamp_nanos() as u64
+            datetime_to_nanos(&timezone.from_local_datetime(&naive_date_time)?)?
         }
     };
     Ok(timestamp)
diff --git a/src/util/timestamp_util.rs b/src/util/timestamp_util.rs
index 5d63fe7..a576e84 100644
--- a/src/util/timestamp_util.rs
+++ b/src/util/timestamp_util.rs
@@ -1,4 +1,4 @@
-use chrono::{DateTime, NaiveDateTime};
+use chrono::{DateTime, NaiveDateTime, TimeZone};
 
 use crate::chopper::types::Nanos;
 use crate::error::{CliResult, Error};
@@ -74,14 +74,14 @@ pub fn parse_datetime_range_element(datetime: &str, timezone: &ChopperTz) -> Cli
     // try the formats that don't need external TZ first
     for format in &DATETIME_RANGE_FORMATS_WITH_TZ {
         if let Ok(dt) = DateTime::parse_from_str(&datetime, format) {
-            return Ok(dt.timestamp_nanos() as Nanos);
+            return datetime_to_nanos(&dt);
         };
     }
 
     // try available datetime formats that need external TZ
     for format in DATETIME_RANGE_FORMATS_NEED_TZ.iter() {
         if let Ok(ndt) = NaiveDateTime::parse_from_str(&datetime, &format) {
-            return Ok(timezone.from_local_datetime(&ndt)?.timestamp_nanos() as Nanos);
+            return datetime_to_nanos(&timezone.from_local_datetime(&ndt)?);
         }
     }
 
@@ -91,6 +91,19 @@ pub fn parse_datetime_range_element(datetime: &str, timezone: &ChopperTz) -> Cli
     )))
 }
 
+/// not every date/time can be represented as nanos, which start in 1970 and end in 2554
+pub fn datetime_to_nanos<Tz: TimeZone>(datetime: &DateTime<Tz>) -> CliResult<Nanos> {
+    let nanos = i128::from(datetime.timestamp()) * 1_000_000_000
+        + i128::from(datetime.timestamp_subsec_nanos());
+    if nanos < 0 || nanos > i128::from(Nanos::max_value()) {
+        return Err(Error::from(format!(
+            "Date/time '{}' is out of range of supported timestamps.",
+            datetime.naive_utc()
+        )));
+    }
+    Ok(nanos as Nanos)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 4ab48120d2e5db9d1dd1eb44f7537342f7902a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 20/32] fix: drop additional trailing columns of later files of
 a directory

Values of columns a later file has past the expected ones were dropped
only if other columns were reordered as well; otherwise its rows had
more values than the header has columns.
---
 src/source/multi_file_source.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/source/multi_file_source.rs b/src/source/multi_file_source.rs
index a92bcc1..15db961 100644
--- a/src/source/multi_file_source.rs
+++ b/src/source/multi_file_source.rs
@@ -182,8 +182,10 @@ impl Source for SerialMultiFileSource {
                                 for (ref_idx, &new_idx) in self.swap_map.iter().enumerate() {
                                     next_row.field_values.swap(ref_idx, new_idx);
                                 }
-                                next_row.field_values.truncate(self.swap_map.len());
                             }
+                            // additional columns of this file are not part of the common header
+                            let column_count = self.common_header.field_names().len();
+                            next_row.field_values.truncate(column_count);
                             return Ok(Some(next_row));
                         }
                     }
-- 
2.43.0


From 7651ddec10719a4c4e514fdaa7652533d385831d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 21/32] fix: open an input through the first transport that can
 open it

All matching transports were opened, one after the other, and the last
one won, so a user supplied transport could end up overridden, and each
further connection made was just dropped.
---
 src/transport/seekable/seekable_factory.rs   | 5 ++++-
 src/transport/streaming/previewer_factory.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/transport/seekable/seekable_factory.rs b/src/transport/seekable/seekable_factory.rs
index c2d4999..5fc46e5 100644
--- a/src/transport/seekable/seekable_factory.rs
+++ b/src/transport/seekable/seekable_factory.rs
@@ -23,7 +23,10 @@ impl SeekableTransportFactory {
         for factory in &mut self.transports.iter() {
             match factory.can_open(path) {
                 false => continue,
-                true => reader = Some(factory.open(path)?),
+                true => {
+                    reader = Some(factory.open(path)?);
+                    break;
+                }
             }
         }
         Ok(match reader {
diff --git a/src/transport/streaming/previewer_factory.rs b/src/transport/streaming/previewer_factory.rs
index fc6452c..0c71295 100644
--- a/src/transport/streaming/previewer_factory.rs
+++ b/src/transport/streaming/previewer_factory.rs
@@ -23,7 +23,10 @@ impl PreviewerTransportFactory {
         for factory in &mut self.transports.iter() {
             match factory.can_open(path) {
                 false => continue,
-                true => reader = Some(factory.open(path)?),
+                true => {
+                    reader = Some(factory.open(path)?);
+                    break;
+                }
             }
         }
         Ok(match reader {
-- 
2.43.0


From 391308e97e26f1ded67b9313d5a29d02c92d4fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 22/32] fix: detect DC before csv when looking at contents

csv accepts anything whose preview is valid UTF-8, which holds for many
DC files too, so DC without file name was often parsed as csv.
---
 src/input/input_factory.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/input/input_factory.rs b/src/input/input_factory.rs
index 2a388ef..c3a56f9 100644
--- a/src/input/input_factory.rs
+++ b/src/input/input_factory.rs
@@ -153,10 +153,11 @@ pub fn create_default_source_factories(
     csv_input_config: Option<CSVInputConfig>,
 ) -> Vec<Box<dyn SourceFactory>> {
     let mut source_factories: Vec<Box<dyn SourceFactory>> = Vec::new();
+    source_factories.push(Box::new(DCFactory));
+    // csv is last because of its generous acceptance criteria
     if let Some(csv_input_config) = csv_input_config {
         source_factories.push(Box::new(CSVFactory::new(csv_input_config)));
     }
-    source_factories.push(Box::new(DCFactory));
     source_factories
 }
 
-- 
2.43.0


From 6c44f35627510f992d820a5bd6f4d2b0a85cf747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 23/32] fix: report an unknown timezone instead of panicking

---
 src/chopper_cli.rs |  2 +-
 src/util/tz.rs     | 36 ++++++++++++++++++++----------------
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/chopper_cli.rs b/src/chopper_cli.rs
index d28800a..ce95e84 100644
--- a/src/chopper_cli.rs
+++ b/src/chopper_cli.rs
@@ -42,7 +42,7 @@ pub fn parse_cli_args(
         error::turn_on_backtrace()
     }
 
-    let timezone = ChopperTz::new_from_cli_arg(matches.value_of("timezone"), timezone_map);
+    let timezone = ChopperTz::new_from_cli_arg(matches.value_of("timezone"), timezone_map)?;
 
     let timestamp_range = TimestampRange::new(
         matches.value_of("begin"),
diff --git a/src/util/tz.rs b/src/util/tz.rs
index 129c0f9..5e67ab4 100644
--- a/src/util/tz.rs
+++ b/src/util/tz.rs
@@ -16,9 +16,9 @@ impl ChopperTz {
     pub fn new_from_cli_arg(
         cli_timezone_arg: Option<&str>,
         timezone_map: Option<HashMap<&str, Tz>>,
-    ) -> ChopperTz {
-        let timezone = Self::resolve_timezone(cli_timezone_arg, timezone_map);
-        ChopperTz { timezone }
+    ) -> CliResult<ChopperTz> {
+        let timezone = Self::resolve_timezone(cli_timezone_arg, timezone_map)?;
+        Ok(ChopperTz { timezone })
     }
 
     pub fn new_always_fails() -> ChopperTz {
@@ -28,23 +28,27 @@ impl ChopperTz {
     fn resolve_timezone(
         cli_timezone_arg: Option<&str>,
         timezone_map: Option<HashMap<&str, Tz>>,
-    ) -> Option<Tz> {
+    ) -> CliResult<Option<Tz>> {
         let timezone_arg = match cli_timezone_arg {
             None => match env::var("CHOPPER_TZ") {
-                Ok(s) => Some(s),
-                Err(_) => None,
-            },
-            Some(s) => Some(s.to_owned()),
-        }?;
-
-        let timezone: Tz = match timezone_map {
-            None => timezone_arg.parse().unwrap(),
-            Some(map) => match map.get(timezone_arg.as_str()) {
-                None => timezone_arg.parse().unwrap(),
-                Some(s) => *s,
+                Ok(s) => s,
+                Err(_) => return Ok(None),
             },
+            Some(s) => s.to_owned(),
         };
-        Some(timezone)
+
+        if let Some(map) = timezone_map {
+            if let Some(timezone) = map.get(timezone_arg.as_str()) {
+                return Ok(Some(*timezone));
+            }
+        }
+        match timezone_arg.parse() {
+            Ok(timezone) => Ok(Some(timezone)),
+            Err(err) => Err(Custom(format!(
+                "Unknown timezone '{}': {}",
+                timezone_arg, err
+            ))),
+        }
     }
 
     pub fn from_local_datetime(&self, local: &NaiveDateTime) -> CliResult<DateTime<Tz>> {
-- 
2.43.0


From 8c13ada0f7c4a5a64cf7350fc2c36d38c0e14828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 24/32] fix: accept any case of --print-time values

The option is declared case insensitive, but for instance 'No' panicked.
---
 src/chopper_cli.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/chopper_cli.rs b/src/chopper_cli.rs
index ce95e84..ec906d0 100644
--- a/src/chopper_cli.rs
+++ b/src/chopper_cli.rs
@@ -214,11 +214,11 @@ fn parse_csv_input_config(matches: &ArgMatches, timezone: ChopperTz) -> CliResul
 
 fn parse_csv_output_config(matches: &ArgMatches, timezone: ChopperTz) -> CSVOutputConfig {
     let csv_out_delimiter = matches.value_of("csv_out_delimiter").unwrap();
-    let csv_out_print_time_col = match matches.value_of("csv_out_print_time_col").unwrap() {
-        "yes" => true,
-        "no" => false,
-        _ => unreachable!(),
-    };
+    // values of this argument are not case sensitive
+    let csv_out_print_time_col = matches
+        .value_of("csv_out_print_time_col")
+        .unwrap()
+        .eq_ignore_ascii_case("yes");
 
     let time_col_name = match matches.value_of("csv_out_time_col_name") {
         None => None,
-- 
2.43.0


From 20330a709b3ef848db0366deed125335c4b26766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 25/32] fix: reject --epoch together with --human

The conflicts were declared with names that no argument has.
---
 src/cli_app.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cli_app.rs b/src/cli_app.rs
index 7db1f81..4c72024 100644
--- a/src/cli_app.rs
+++ b/src/cli_app.rs
@@ -91,7 +91,7 @@ impl CliApp {
                     .long("epoch")
                     .help("csv output only: time column has epoch timestamps")
                     .takes_value(false)
-                    .conflicts_with("human")
+                    .conflicts_with("csv_out_time_fmt_human")
             )
             .arg(
                 Arg::with_name("csv_out_time_fmt_human")
@@ -99,7 +99,7 @@ impl CliApp {
                     .long("human")
                     .help("csv output only: time column is human-readable; default")
                     .takes_value(false)
-                    .conflicts_with("epoch")
+                    .conflicts_with("csv_out_time_fmt_epoch")
             )
             .arg(
                 Arg::with_name("csv_out_time_col_units")
-- 
2.43.0


From b40e7cbb5084d565d9695f8f14d87ccaa7f2be5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 26/32] fix: recognise epoch timestamps before date formats
 that can match digits

---
 src/source/csv_timestamp.rs | 38 ++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/source/csv_timestamp.rs b/src/source/csv_timestamp.rs
index b30f606..68f99ac 100644
--- a/src/source/csv_timestamp.rs
+++ b/src/source/csv_timestamp.rs
@@ -354,6 +354,25 @@ fn get_timestamp_fmt_auto_with_index(
 
     let timestamp = get_timestamp_field(first_row, time_idx)?;
 
+    // epoch timestamps go before the formats below, since those can match a number as well: e.g.
+    // whitespace in a format matches no whitespace, and so 13 digit millis can be read as a date
+    if timestamp.chars().all(|c| c.is_ascii_digit()) {
+        if let Ok(n) = timestamp.parse::<u64>() {
+            if RANGE_NANOS.contains(&n) {
+                return Ok(TimestampFmt::Units(TimestampUnits::Nanos));
+            }
+            if RANGE_MICROS.contains(&n) {
+                return Ok(TimestampFmt::Units(TimestampUnits::Micros));
+            }
+            if RANGE_MILLIS.contains(&n) {
+                return Ok(TimestampFmt::Units(TimestampUnits::Millis));
+            }
+            if RANGE_SECONDS.contains(&n) {
+                return Ok(TimestampFmt::Units(TimestampUnits::Seconds));
+            }
+        }
+    };
+
     for format in &TIME_FORMATS_WITH_TZ {
         if DateTime::parse_from_str(timestamp, format).is_ok() {
             return Ok(TimestampFmt::DateTimeIncludesTz(format.to_string()));
@@ -377,25 +396,6 @@ fn get_timestamp_fmt_auto_with_index(
         };
     }
 
-    if timestamp.chars().all(|c| c.is_ascii_digit()) {
-        let n = match timestamp.parse::<u64>() {
-            Ok(ts) => ts,
-            Err(err) => return Err(Error::Custom(err.to_string())),
-        };
-        if RANGE_NANOS.contains(&n) {
-            return Ok(TimestampFmt::Units(TimestampUnits::Nanos));
-        }
-        if RANGE_MICROS.contains(&n) {
-            return Ok(TimestampFmt::Units(TimestampUnits::Micros));
-        }
-        if RANGE_MILLIS.contains(&n) {
-            return Ok(TimestampFmt::Units(TimestampUnits::Millis));
-        }
-        if RANGE_SECONDS.contains(&n) {
-            return Ok(TimestampFmt::Units(TimestampUnits::Seconds));
-        }
-    };
-
     Err(Error::from(format!(
         "Cannot parse timestamp. Please provide format for parsing."
     )))
-- 
2.43.0


From e399e8a6f7c80113821e5b93445cc87310a74e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 27/32] fix: do not end the process when a missing value is
 compared

---
 src/chopper/types.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chopper/types.rs b/src/chopper/types.rs
index 2674a13..3c86b5c 100644
--- a/src/chopper/types.rs
+++ b/src/chopper/types.rs
@@ -123,6 +123,8 @@ impl PartialOrd for FieldValue {
             (FieldValue::Short(x), FieldValue::Short(y)) => Some(x.cmp(y)),
             (FieldValue::String(x), FieldValue::String(y)) => Some(x.cmp(y)),
             (FieldValue::None, FieldValue::None) => Some(Ordering::Equal),
+            // missing values have no order
+            (FieldValue::None, _) | (_, FieldValue::None) => None,
             _ => Error::from(format!(
                 "FieldValue -- cannot compare different field types - {} {}",
                 self, other
-- 
2.43.0


From b75a1c274874fdf44901f0fd6af1f67130d89656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 28/32] fix: do not take a failed read for the end of lzf or
 lz4 block data

---
 src/decompress/decompress.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/decompress/decompress.rs b/src/decompress/decompress.rs
index d3d8c14..5fe0610 100644
--- a/src/decompress/decompress.rs
+++ b/src/decompress/decompress.rs
@@ -135,7 +135,8 @@ fn decompress_lz4_frame(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Bo
 }
 
 fn decompress_lz4_jblock(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let decoder = Lz4JBlockReader::new(EndMarkRequired(reader), true, true);
+    let reader = EndMarkRequired(ReadFailureIsNotEof(reader));
+    let decoder = Lz4JBlockReader::new(reader, true, true);
     Ok(Box::new(decoder))
 }
 
@@ -156,8 +157,22 @@ impl<R: Read> Read for EndMarkRequired<R> {
     }
 }
 
+/// lzf and lz4 block decoders take any UnexpectedEof error at the start of a block for the end of
+/// the data; so failures of the underlying reader that are of that kind (e.g. a connection that got
+/// closed) have to look different to them
+struct ReadFailureIsNotEof<R>(R);
+
+impl<R: Read> Read for ReadFailureIsNotEof<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        self.0.read(buf).map_err(|e| match e.kind() {
+            io::ErrorKind::UnexpectedEof => io::Error::new(io::ErrorKind::Other, e),
+            _ => e,
+        })
+    }
+}
+
 fn decompress_lzf(reader: ChopperBufReader<Box<dyn Read>>) -> CliResult<Box<dyn Read>> {
-    let decoder = LzfReader::new(reader);
+    let decoder = LzfReader::new(ReadFailureIsNotEof(reader));
     Ok(Box::new(decoder))
 }
 
-- 
2.43.0


From 7f07b25dcb98ceed2ca267a1d35c288c57f625fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:30 +0000
Subject: [PATCH 29/32] fix: accept a chain without nodes instead of panicking

---
 src/chopper/header_graph.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/chopper/header_graph.rs b/src/chopper/header_graph.rs
index 57e7964..3121e11 100644
--- a/src/chopper/header_graph.rs
+++ b/src/chopper/header_graph.rs
@@ -66,8 +66,14 @@ impl HeaderGraph {
         header: &mut Header,
     ) -> CliResult<Self> {
         let chain: &mut HeaderChain = self.header_chains.get_mut(chain_id).unwrap();
-        // check the first node of the chain.
-        if let HeaderNode::MergeHeaderSink(..) = chain.get_mut_nodes().get_mut(0).unwrap() {
+        if chain.get_mut_nodes().is_empty() && data_graph.get_chain_node_count(chain_id) > 0 {
+            return Err(Error::from(format!(
+                "HeaderGraph -- chain [{}] of an input is already in use by another chain",
+                chain_id
+            )));
+        }
+        // check the first node of the chain, if it has any
+        if let Some(HeaderNode::MergeHeaderSink(..)) = chain.get_mut_nodes().get_mut(0) {
             // if MergeHeaderSink, check/process the header without removing the chain
             // pass to match_remove_chain only when all the Merge headers are processed
             self.check_merge_header(data_graph, chain_id, header)
@@ -131,8 +137,8 @@ impl HeaderGraph {
         chain_id: ChainId,
         header: &mut Header,
     ) -> CliResult<Self> {
-        let node: &mut HeaderNode = match self.get_mut_chain(chain_id) {
-            Some(c) => c.get_mut_nodes().get_mut(0).unwrap(),
+        let node: Option<&mut HeaderNode> = match self.get_mut_chain(chain_id) {
+            Some(c) => c.get_mut_nodes().get_mut(0),
             None => {
                 return Err(Error::from(format!(
                     "HeaderGraph -- ChainId[{}] index out of bounds",
@@ -141,7 +147,7 @@ impl HeaderGraph {
             }
         };
         match node {
-            HeaderNode::MergeHeaderSink(mhs, header_count_tracker) => {
+            Some(HeaderNode::MergeHeaderSink(mhs, header_count_tracker)) => {
                 if header_count_tracker.unprocessed_count <= 0 {
                     return Err(Error::from(
                         "HeaderGraph -- unprocessed header count must be at least 1",
-- 
2.43.0


From 99087046da19e0acae607630e80b749916cb62c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:18 +0000
Subject: [PATCH 30/32] fix: report a merge that gets fewer inputs than it
 expects

---
 src/chopper/header_graph.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/chopper/header_graph.rs b/src/chopper/header_graph.rs
index 3121e11..32fa2e0 100644
--- a/src/chopper/header_graph.rs
+++ b/src/chopper/header_graph.rs
@@ -56,9 +56,26 @@ impl HeaderGraph {
         for i in 0..header.len() {
             self = self.process_header_re(&mut data_graph, i, header.get_mut(i).unwrap())?;
         }
+        self.check_no_merge_is_incomplete()?;
         Ok(data_graph)
     }
 
+    // rows sent to a merge that is still waiting for some of its headers would go nowhere
+    fn check_no_merge_is_incomplete(&self) -> CliResult<()> {
+        for (chain_id, chain) in self.header_chains.iter().enumerate() {
+            if let Some(HeaderNode::MergeHeaderSink(mhs, tracker)) = chain.nodes.get(0) {
+                let expected_count = mhs.get_new_header_count_tracker().unprocessed_count;
+                if tracker.unprocessed_count < expected_count {
+                    return Err(Error::from(format!(
+                        "HeaderGraph -- merge in chain [{}] expects {} inputs, {} are missing",
+                        chain_id, expected_count, tracker.unprocessed_count
+                    )));
+                }
+            }
+        }
+        Ok(())
+    }
+
     fn process_header_re(
         mut self,
         data_graph: &mut DataGraph,
-- 
2.43.0


From 79f6cfaf0512f0d6e25963ce37a437df715e1dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:42 +0000
Subject: [PATCH 31/32] fix: report a split into a chain that does not exist

---
 src/chopper/header_graph.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/chopper/header_graph.rs b/src/chopper/header_graph.rs
index 32fa2e0..93348bd 100644
--- a/src/chopper/header_graph.rs
+++ b/src/chopper/header_graph.rs
@@ -132,6 +132,12 @@ impl HeaderGraph {
                         ));
                     }
                     for i in shs.chain_ids() {
+                        if *i >= data_graph.len() {
+                            return Err(Error::from(format!(
+                                "HeaderGraph -- ChainId[{}] index out of bounds",
+                                i
+                            )));
+                        }
                         self = self.match_remove_chain(data_graph, *i, &mut header.clone())?;
                         header_count_tracker.unprocessed_count -= 1;
                     }
-- 
2.43.0


From d8109bac28df4dd54e298b6e7ab938b53a711d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:31 +0000
Subject: [PATCH 32/32] fix: report command line arguments that are not valid
 UTF-8 rather than panic

---
 src/cli_app.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cli_app.rs b/src/cli_app.rs
index 4c72024..fe8054d 100644
--- a/src/cli_app.rs
+++ b/src/cli_app.rs
@@ -1,5 +1,5 @@
 use clap::crate_version;
-use clap::{App, Arg};
+use clap::{App, AppSettings, Arg};
 
 pub struct CliApp;
 
@@ -8,6 +8,8 @@ impl CliApp {
         let app = App::new("chopper")
             .version(crate_version!())
             .about("chopper is a simple streaming time series tool")
+            // report arguments that are not valid UTF-8 rather than panic on them
+            .setting(AppSettings::StrictUtf8)
             .arg(
                 Arg::with_name("input")
                     .help("sets the input files to use; \nif missing, stdin will be used")
-- 
2.43.0

