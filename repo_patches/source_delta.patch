From 76b4668a2667313571ff0de6f16ce3e4a875d0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:18 +0000
Subject: [PATCH 01/27] fix: TokioReader read nothing into a zero-length buffer

`AsyncRead::read` fills the existing length of the buffer; with
`Vec::with_capacity` that is zero, so every non-empty request failed with
EndOfFile. Read until the requested range is exhausted instead.
---
 src/reader.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 3ac1317..7b3a336 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -113,8 +113,10 @@ impl<T: tokio::io::AsyncRead + tokio::io::AsyncSeek + Unpin + Send + Debug> Toki
         file.seek(SeekFrom::Start(range.start)).await?;
 
         let to_read = range.end - range.start;
-        let mut buffer = Vec::with_capacity(to_read as usize);
-        let read = file.read(&mut buffer).await? as u64;
+        // `read` does not grow the buffer and may return fewer bytes than requested, so read until
+        // the range is exhausted.
+        let mut buffer = Vec::new();
+        let read = (&mut *file).take(to_read).read_to_end(&mut buffer).await? as u64;
         if read != to_read {
             return Err(AsyncTiffError::EndOfFile(to_read, read));
         }
-- 
2.43.0


From 915b892f52692aad6dcd0398388d8146995fa417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:37 +0000
Subject: [PATCH 02/27] fix: ReqwestReader returned the whole body when the
 server ignores Range

A 200 response carries the full content, not the requested range. Also
answer an empty range without underflowing `range.end - 1`.
---
 src/reader.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 7b3a336..0bab62e 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -202,18 +202,36 @@ impl ReqwestReader {
     }
 
     async fn make_range_request(&self, range: Range<u64>) -> AsyncTiffResult<Bytes> {
+        // An empty range can't be expressed as an HTTP range
+        if range.is_empty() {
+            return Ok(Bytes::new());
+        }
+
         let url = self.url.clone();
         let client = self.client.clone();
         // HTTP range is inclusive, so we need to subtract 1 from the end
-        let range = format!("bytes={}-{}", range.start, range.end - 1);
+        let header = format!("bytes={}-{}", range.start, range.end - 1);
         let response = client
             .get(url)
-            .header("Range", range)
+            .header("Range", header)
             .send()
             .await?
             .error_for_status()?;
+        let partial = response.status() == reqwest::StatusCode::PARTIAL_CONTENT;
         let bytes = response.bytes().await?;
-        Ok(bytes)
+        if partial {
+            return Ok(bytes);
+        }
+
+        // A server may ignore the Range header and respond with the full content
+        let len = bytes.len() as u64;
+        if range.start >= len {
+            return Err(crate::error::AsyncTiffError::EndOfFile(
+                range.end - range.start,
+                0,
+            ));
+        }
+        Ok(bytes.slice(range.start as usize..range.end.min(len) as usize))
     }
 }
 
-- 
2.43.0


From 8fd9ba40fc856ce671c246a673a1da5ae6af177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:58 +0000
Subject: [PATCH 03/27] fix: predictor stride of planar tiles

Each band of a planar tile is stored as its own one-sample-per-pixel plane,
so the predictor must look back one sample, not samples_per_pixel.
---
 src/tile.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tile.rs b/src/tile.rs
index 5b586b2..a902690 100644
--- a/src/tile.rs
+++ b/src/tile.rs
@@ -86,6 +86,11 @@ impl Tile {
             ))?;
 
         let samples = self.samples_per_pixel as usize;
+        // Each band of a planar tile is encoded, and so predicted, on its own.
+        let predictor_samples = match &self.compressed_bytes {
+            CompressedBytes::Chunky(_) => samples,
+            CompressedBytes::Planar(_) => 1,
+        };
         let bits_per_sample = self.bits_per_sample;
         // tile_width is the full encoded tile width — predictor must use this, not the cropped width
         let tile_width = self.width as usize;
@@ -131,12 +136,12 @@ impl Tile {
             Predictor::Horizontal => unpredict_hdiff(
                 decoded_tile,
                 self.endianness,
-                samples,
+                predictor_samples,
                 bits_per_sample,
                 tile_width,
             ),
             Predictor::FloatingPoint => {
-                unpredict_float(decoded_tile, samples, bits_per_sample, tile_width)?
+                unpredict_float(decoded_tile, predictor_samples, bits_per_sample, tile_width)?
             }
         };
 
-- 
2.43.0


From b44fed613fd2c11fb792abbc7bfa46849e4a30a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:58 +0000
Subject: [PATCH 04/27] fix: decoding 16-bit JPEG2000 tiles always panicked

`bytemuck::cast_vec` refuses to go from u16 to u8 because the alignment of
the allocation differs.
---
 src/decoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 0266d5d..77ec0ff 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -274,7 +274,7 @@ impl Decoder for JPEG2kDecoder {
             jpeg2k::ImagePixelData::L16(items)
             | jpeg2k::ImagePixelData::La16(items)
             | jpeg2k::ImagePixelData::Rgb16(items)
-            | jpeg2k::ImagePixelData::Rgba16(items) => Ok(bytemuck::cast_vec(items)),
+            | jpeg2k::ImagePixelData::Rgba16(items) => Ok(bytemuck::cast_slice(&items).to_vec()),
         }
     }
 }
-- 
2.43.0


From 3243f923ad7d9b8fd3aaef414c74475a7b09773e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:59 +0000
Subject: [PATCH 05/27] fix: 16-bit JPEG2000 tiles of big-endian TIFFs were
 byte-swapped

The decoder returns native-endian samples; swapping them again by the byte
order of the TIFF container corrupts every value.
---
 src/tile.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tile.rs b/src/tile.rs
index a902690..f51bcf8 100644
--- a/src/tile.rs
+++ b/src/tile.rs
@@ -92,6 +92,13 @@ impl Tile {
             CompressedBytes::Planar(_) => 1,
         };
         let bits_per_sample = self.bits_per_sample;
+        // JPEG2000 code streams carry sample values, not bytes: the decoder already produces them in
+        // native byte order.
+        let endianness = match self.compression_method {
+            Compression::JPEG2k if cfg!(target_endian = "little") => Endianness::LittleEndian,
+            Compression::JPEG2k => Endianness::BigEndian,
+            _ => self.endianness,
+        };
         // tile_width is the full encoded tile width — predictor must use this, not the cropped width
         let tile_width = self.width as usize;
 
@@ -130,12 +137,12 @@ impl Tile {
         // Apply predictor on the full encoded tile width, then crop afterward.
         let decoded = match self.predictor {
             Predictor::None => {
-                fix_endianness(&mut decoded_tile, self.endianness, bits_per_sample);
+                fix_endianness(&mut decoded_tile, endianness, bits_per_sample);
                 decoded_tile
             }
             Predictor::Horizontal => unpredict_hdiff(
                 decoded_tile,
-                self.endianness,
+                endianness,
                 predictor_samples,
                 bits_per_sample,
                 tile_width,
-- 
2.43.0


From de15394b3b69b1370b7771c561d3f63f2323d135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:00 +0000
Subject: [PATCH 06/27] fix: corrupt LZW data panicked instead of returning an
 error

---
 src/decoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 77ec0ff..d9d1792 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -240,7 +240,9 @@ impl Decoder for LZWDecoder {
     ) -> AsyncTiffResult<Vec<u8>> {
         // https://github.com/image-rs/image-tiff/blob/90ae5b8e54356a35e266fb24e969aafbcb26e990/src/decoder/stream.rs#L147
         let mut decoder = weezl::decode::Decoder::with_tiff_size_switch(weezl::BitOrder::Msb, 8);
-        let decoded = decoder.decode(&buffer).expect("failed to decode LZW data");
+        let decoded = decoder
+            .decode(&buffer)
+            .map_err(|e| AsyncTiffError::General(format!("LZW decode failed: {e}")))?;
         Ok(decoded)
     }
 }
-- 
2.43.0


From 131e40f58a9ffe0e70891a832b7d0de4b33c277b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:18 +0000
Subject: [PATCH 07/27] fix: JPEGTables shorter than two bytes panicked instead
 of returning an error

---
 src/decoder.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index d9d1792..6b225b5 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -7,7 +7,9 @@ use std::io::{Cursor, Read};
 use bytes::Bytes;
 use flate2::bufread::ZlibDecoder;
 
-use crate::error::{AsyncTiffError, AsyncTiffResult, TiffError, TiffUnsupportedError};
+use crate::error::{
+    AsyncTiffError, AsyncTiffResult, TiffError, TiffFormatError, TiffUnsupportedError,
+};
 use crate::tags::{Compression, PhotometricInterpretation};
 
 /// A registry of decoders.
@@ -381,8 +383,11 @@ fn decode_modern_jpeg(
             let mut reader = reader;
             reader.read_exact(&mut [0; 2])?;
 
-            Box::new(Cursor::new(&jpeg_tables[..jpeg_tables.len() - 2]).chain(reader))
-                as Box<dyn Read>
+            let tables_len = jpeg_tables
+                .len()
+                .checked_sub(2)
+                .ok_or(TiffError::FormatError(TiffFormatError::InvalidTag))?;
+            Box::new(Cursor::new(&jpeg_tables[..tables_len]).chain(reader)) as Box<dyn Read>
         }
         None => Box::new(reader),
     };
-- 
2.43.0


From 614d18bc53c53c27b7f492a7308ae47d62232bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:39 +0000
Subject: [PATCH 08/27] fix: predictors panicked on tiles that are not a whole
 number of rows

The decoded length and the bit depth come from the file: a truncated tile, a
zero tile width or an odd bit depth is reported as an error.
---
 src/predictor.rs | 22 ++++++++++++++++++++--
 src/tile.rs      |  2 +-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/predictor.rs b/src/predictor.rs
index c272ab4..6b8ca10 100644
--- a/src/predictor.rs
+++ b/src/predictor.rs
@@ -57,9 +57,15 @@ pub(crate) fn unpredict_hdiff(
     samples: usize,
     bits_per_sample: u16,
     tile_width: usize,
-) -> Vec<u8> {
+) -> AsyncTiffResult<Vec<u8>> {
     let bytes_per_sample = (bits_per_sample as usize).div_ceil(8);
     let row_stride = tile_width * samples * bytes_per_sample;
+    check_whole_rows(&buffer, row_stride)?;
+    if !matches!(bytes_per_sample, 1 | 2 | 4 | 8) {
+        return Err(AsyncTiffError::General(format!(
+            "Horizontal predictor not supported for {bits_per_sample}-bit samples"
+        )));
+    }
 
     fix_endianness(&mut buffer, endianness, bits_per_sample);
 
@@ -67,7 +73,18 @@ pub(crate) fn unpredict_hdiff(
         rev_hpredict_row(row, bits_per_sample, samples);
     }
 
-    buffer
+    Ok(buffer)
+}
+
+/// Predictors work on whole rows, but the length of a decoded tile depends on the file's content.
+fn check_whole_rows(buffer: &[u8], row_stride: usize) -> AsyncTiffResult<()> {
+    if row_stride == 0 || !buffer.len().is_multiple_of(row_stride) {
+        return Err(AsyncTiffError::General(format!(
+            "Decoded tile length {} is not a multiple of its row length {row_stride}",
+            buffer.len()
+        )));
+    }
+    Ok(())
 }
 
 /// Reverse one row of horizontal differencing, dispatched by bit depth.
@@ -120,6 +137,7 @@ pub(crate) fn unpredict_float(
 ) -> AsyncTiffResult<Vec<u8>> {
     let bytes_per_sample = (bits_per_sample as usize) / 8;
     let row_stride = tile_width * samples * bytes_per_sample;
+    check_whole_rows(&buffer, row_stride)?;
     let mut out = vec![0u8; buffer.len()];
 
     for (in_row, out_row) in buffer
diff --git a/src/tile.rs b/src/tile.rs
index f51bcf8..10e188b 100644
--- a/src/tile.rs
+++ b/src/tile.rs
@@ -146,7 +146,7 @@ impl Tile {
                 predictor_samples,
                 bits_per_sample,
                 tile_width,
-            ),
+            )?,
             Predictor::FloatingPoint => {
                 unpredict_float(decoded_tile, predictor_samples, bits_per_sample, tile_width)?
             }
-- 
2.43.0


From 332f714cf46608dfde2ecec90ccd1d91334a9546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:05 +0000
Subject: [PATCH 09/27] fix: oversized tile dimensions overflowed instead of
 returning an error

The planar buffer was preallocated, and its size asserted, from unvalidated
tags: huge dimensions aborted on allocation or overflowed, and 1-bit planar
tiles tripped the assertion. The length of the decoded data is validated by
Array::try_new, which now checks its multiplication.
---
 src/array.rs | 7 +++++--
 src/tile.rs  | 7 +------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/array.rs b/src/array.rs
index 2acfea0..e00db74 100644
--- a/src/array.rs
+++ b/src/array.rs
@@ -1,7 +1,7 @@
 use bytemuck::{cast_slice, cast_vec, try_cast_vec};
 
 use crate::data_type::DataType;
-use crate::error::{AsyncTiffError, AsyncTiffResult};
+use crate::error::{AsyncTiffError, AsyncTiffResult, TiffError};
 
 /// A 3D array that represents decoded TIFF image data.
 #[derive(Debug, Clone)]
@@ -29,7 +29,10 @@ impl Array {
         shape: [usize; 3],
         data_type: Option<DataType>,
     ) -> AsyncTiffResult<Self> {
-        let expected_len = shape[0] * shape[1] * shape[2];
+        let expected_len = shape[0]
+            .checked_mul(shape[1])
+            .and_then(|len| len.checked_mul(shape[2]))
+            .ok_or(TiffError::IntSizeError)?;
 
         let typed_data = if data_type == Some(DataType::Bool) {
             let required_bytes = expected_len.div_ceil(8);
diff --git a/src/tile.rs b/src/tile.rs
index 10e188b..1836dae 100644
--- a/src/tile.rs
+++ b/src/tile.rs
@@ -112,10 +112,7 @@ impl Tile {
                 self.lerc_parameters.as_deref(),
             )?,
             CompressedBytes::Planar(band_bytes) => {
-                let bytes_per_sample = (bits_per_sample as usize).div_ceil(8);
-                let total_size =
-                    band_bytes.len() * tile_width * (self.height as usize) * bytes_per_sample;
-                let mut result = Vec::with_capacity(total_size);
+                let mut result = Vec::new();
 
                 for band_data in band_bytes {
                     let decoded_band = decoder.decode_tile(
@@ -128,8 +125,6 @@ impl Tile {
                     )?;
                     result.extend_from_slice(&decoded_band);
                 }
-
-                debug_assert_eq!(result.len(), total_size);
                 result
             }
         };
-- 
2.43.0


From bd18e97048d8cfc7f52908dfa16a3fbfdbf16f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:06 +0000
Subject: [PATCH 10/27] fix: planar bands of different decoded lengths were
 silently shifted

A short band followed by a long one could add up to the expected total, with
pixels attributed to the wrong band.
---
 src/tile.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tile.rs b/src/tile.rs
index 1836dae..69b3e28 100644
--- a/src/tile.rs
+++ b/src/tile.rs
@@ -2,7 +2,7 @@ use bytes::Bytes;
 
 use crate::array::Array;
 use crate::decoder::DecoderRegistry;
-use crate::error::{AsyncTiffResult, TiffError, TiffUnsupportedError};
+use crate::error::{AsyncTiffResult, TiffError, TiffFormatError, TiffUnsupportedError};
 use crate::ifd::CompressedBytes;
 use crate::predictor::{fix_endianness, unpredict_float, unpredict_hdiff};
 use crate::reader::Endianness;
@@ -113,6 +113,7 @@ impl Tile {
             )?,
             CompressedBytes::Planar(band_bytes) => {
                 let mut result = Vec::new();
+                let mut band_len = None;
 
                 for band_data in band_bytes {
                     let decoded_band = decoder.decode_tile(
@@ -123,6 +124,12 @@ impl Tile {
                         bits_per_sample,
                         self.lerc_parameters.as_deref(),
                     )?;
+                    if *band_len.get_or_insert(decoded_band.len()) != decoded_band.len() {
+                        return Err(TiffError::FormatError(
+                            TiffFormatError::InconsistentSizesEncountered,
+                        )
+                        .into());
+                    }
                     result.extend_from_slice(&decoded_band);
                 }
                 result
-- 
2.43.0


From 2bca69604c904438c59ff365eece4fde63c9a74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:31 +0000
Subject: [PATCH 11/27] fix: inline ASCII tags panicked on non-ASCII or
 unterminated text

The same bytes are accepted when stored out of line. Parse both the same way:
up to the first NUL, lossily.
---
 src/metadata/reader.rs | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index 34f6a7f..f4cb105 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -355,14 +355,7 @@ async fn read_tag_value<F: MetadataFetch>(
             Type::LONG => TagValue::Unsigned(data.read_u32()?),
             Type::SLONG => TagValue::Signed(data.read_i32()?),
             Type::FLOAT => TagValue::Float(data.read_f32()?),
-            Type::ASCII => {
-                if data.as_ref()[0] == 0 {
-                    TagValue::Ascii("".to_string())
-                } else {
-                    panic!("Invalid tag");
-                    // return Err(TiffError::FormatError(TiffFormatError::InvalidTag));
-                }
-            }
+            Type::ASCII => TagValue::Ascii(parse_ascii(vec![data.read_u8()?])),
             Type::LONG8 => {
                 let offset = data.read_u32()?;
                 cursor.seek(offset as _);
@@ -432,15 +425,7 @@ async fn read_tag_value<F: MetadataFetch>(
             Type::ASCII => {
                 let mut buf = vec![0; count as usize];
                 data.read_exact(&mut buf)?;
-                if buf.is_ascii() && buf.ends_with(&[0]) {
-                    let v = std::str::from_utf8(&buf)
-                        .map_err(|err| AsyncTiffError::General(err.to_string()))?;
-                    let v = v.trim_matches(char::from(0));
-                    return Ok(TagValue::Ascii(v.into()));
-                } else {
-                    panic!("Invalid tag");
-                    // return Err(TiffError::FormatError(TiffFormatError::InvalidTag));
-                }
+                return Ok(TagValue::Ascii(parse_ascii(buf)));
             }
             Type::SHORT => {
                 let mut v = Vec::new();
@@ -615,16 +600,20 @@ async fn read_tag_value<F: MetadataFetch>(
             let mut out = vec![0; count as _];
             let mut buf = cursor.read(count).await?;
             buf.read_exact(&mut out)?;
-
-            // Strings may be null-terminated, so we trim anything downstream of the null byte
-            if let Some(first) = out.iter().position(|&b| b == 0) {
-                out.truncate(first);
-            }
-            Ok(TagValue::Ascii(String::from_utf8_lossy(&out).into_owned()))
+            Ok(TagValue::Ascii(parse_ascii(out)))
         }
     }
 }
 
+/// Parse the bytes of an ASCII tag, wherever they are stored.
+fn parse_ascii(mut bytes: Vec<u8>) -> String {
+    // Strings may be null-terminated, so we trim anything downstream of the null byte
+    if let Some(first) = bytes.iter().position(|&b| b == 0) {
+        bytes.truncate(first);
+    }
+    String::from_utf8_lossy(&bytes).into_owned()
+}
+
 #[cfg(test)]
 mod test {
     use async_trait::async_trait;
-- 
2.43.0


From 5b62b50d96f7746c3fc04d4f787273275a3c573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:32 +0000
Subject: [PATCH 12/27] fix: an unknown tag type panicked instead of returning
 an error

---
 src/metadata/reader.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index f4cb105..7c638ca 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -271,9 +271,12 @@ async fn read_tag<F: MetadataFetch>(
     let tag_name = Tag::from_u16_exhaustive(cursor.read_u16().await?);
 
     let tag_type_code = cursor.read_u16().await?;
-    let tag_type = Type::from_u16(tag_type_code).expect(
-        "Unknown tag type {tag_type_code}. TODO: we should skip entries with unknown tag types.",
-    );
+    // TODO: we should skip entries with unknown tag types.
+    let tag_type = Type::from_u16(tag_type_code).ok_or_else(|| {
+        TiffError::FormatError(TiffFormatError::Format(format!(
+            "Unknown type {tag_type_code} of tag {tag_name:?}"
+        )))
+    })?;
     let count = if bigtiff {
         cursor.read_u64().await?
     } else {
-- 
2.43.0


From 5540a34d45e2fe6a113d7856e4cba0eb002c9f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:54 +0000
Subject: [PATCH 13/27] fix: tag counts and offsets from the file overflowed or
 exhausted memory

Counts are not validated against the file, so neither preallocate for them nor
do unchecked arithmetic with them.
---
 src/metadata/fetch.rs  | 10 +++++--
 src/metadata/reader.rs | 64 ++++++++++++++++++++++++------------------
 2 files changed, 43 insertions(+), 31 deletions(-)

diff --git a/src/metadata/fetch.rs b/src/metadata/fetch.rs
index b18fcb1..79c680d 100644
--- a/src/metadata/fetch.rs
+++ b/src/metadata/fetch.rs
@@ -4,7 +4,7 @@ use std::ops::Range;
 use async_trait::async_trait;
 use bytes::Bytes;
 
-use crate::error::AsyncTiffResult;
+use crate::error::{AsyncTiffResult, TiffError};
 use crate::reader::{AsyncFileReader, EndianAwareReader, Endianness};
 
 /// A data source that can be used with [`TiffMetadataReader`][crate::metadata::TiffMetadataReader]
@@ -69,8 +69,12 @@ impl<'a, F: MetadataFetch> MetadataCursor<'a, F> {
 
     /// Read the given number of bytes, advancing the internal cursor state by the same amount.
     pub(crate) async fn read(&mut self, length: u64) -> AsyncTiffResult<EndianAwareReader> {
-        let range = self.offset as _..(self.offset + length) as _;
-        self.offset += length;
+        let end = self
+            .offset
+            .checked_add(length)
+            .ok_or(TiffError::IntSizeError)?;
+        let range = self.offset..end;
+        self.offset = end;
         let bytes = self.fetch.fetch(range).await?;
         Ok(EndianAwareReader::new(bytes, self.endianness))
     }
diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index 7c638ca..7b88bab 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -203,6 +203,15 @@ impl ImageFileDirectoryReader {
         })
     }
 
+    /// The byte offset of the entry with the specified index.
+    fn entry_offset(&self, tag_idx: u64) -> AsyncTiffResult<u64> {
+        self.ifd_entry_byte_size
+            .checked_mul(tag_idx)
+            .and_then(|offset| offset.checked_add(self.tag_count_byte_size))
+            .and_then(|offset| offset.checked_add(self.ifd_start_offset))
+            .ok_or(TiffError::IntSizeError.into())
+    }
+
     /// Manually read the tag with the specified index.
     ///
     /// Panics if the tag index is out of range of the tag count.
@@ -215,8 +224,7 @@ impl ImageFileDirectoryReader {
         tag_idx: u64,
     ) -> AsyncTiffResult<(Tag, TagValue)> {
         assert!(tag_idx < self.tag_count);
-        let tag_offset =
-            self.ifd_start_offset + self.tag_count_byte_size + (self.ifd_entry_byte_size * tag_idx);
+        let tag_offset = self.entry_offset(tag_idx)?;
         let (tag_name, tag_value) =
             read_tag(fetch, tag_offset, self.endianness, self.bigtiff).await?;
         Ok((tag_name, tag_value))
@@ -227,7 +235,7 @@ impl ImageFileDirectoryReader {
     /// Keep in mind that you'll still need to call [`finish`][Self::finish] to get the byte offset
     /// of the next IFD.
     pub async fn read<F: MetadataFetch>(&self, fetch: &F) -> AsyncTiffResult<ImageFileDirectory> {
-        let mut tags = HashMap::with_capacity(self.tag_count as usize);
+        let mut tags = HashMap::new();
         for tag_idx in 0..self.tag_count {
             let (tag, value) = self.read_tag(fetch, tag_idx).await?;
             tags.insert(tag, value);
@@ -238,9 +246,7 @@ impl ImageFileDirectoryReader {
     /// Finish this reader, reading the byte offset of the next IFD
     pub async fn finish<F: MetadataFetch>(self, fetch: &F) -> AsyncTiffResult<Option<u64>> {
         // The byte offset for reading the next ifd
-        let next_ifd_byte_offset = self.ifd_start_offset
-            + self.tag_count_byte_size
-            + (self.ifd_entry_byte_size * self.tag_count);
+        let next_ifd_byte_offset = self.entry_offset(self.tag_count)?;
         let mut cursor =
             MetadataCursor::new_with_offset(fetch, self.endianness, next_ifd_byte_offset);
 
@@ -316,7 +322,7 @@ async fn read_tag_value<F: MetadataFetch>(
         | Type::IFD8 => 8,
     };
 
-    let value_byte_length = count.checked_mul(tag_size).unwrap();
+    let value_byte_length = count.checked_mul(tag_size).ok_or(TiffError::IntSizeError)?;
 
     // Case 2: there is one value.
     if count == 1 {
@@ -411,8 +417,8 @@ async fn read_tag_value<F: MetadataFetch>(
                 return {
                     Ok(TagValue::List(
                         (0..count)
-                            .map(|_| TagValue::Byte(data.read_u8().unwrap()))
-                            .collect(),
+                            .map(|_| data.read_u8().map(TagValue::Byte))
+                            .collect::<Result<_, _>>()?,
                     ))
                 };
             }
@@ -420,8 +426,8 @@ async fn read_tag_value<F: MetadataFetch>(
                 return {
                     Ok(TagValue::List(
                         (0..count)
-                            .map(|_| TagValue::SignedByte(data.read_i8().unwrap()))
-                            .collect(),
+                            .map(|_| data.read_i8().map(TagValue::SignedByte))
+                            .collect::<Result<_, _>>()?,
                     ))
                 }
             }
@@ -496,63 +502,63 @@ async fn read_tag_value<F: MetadataFetch>(
         // TODO check if this could give wrong results
         // at a different endianess of file/computer.
         Type::BYTE | Type::UNDEFINED => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Byte(cursor.read_u8().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SBYTE => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::SignedByte(cursor.read_i8().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SHORT => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Short(cursor.read_u16().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SSHORT => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::SignedShort(cursor.read_i16().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::LONG => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Unsigned(cursor.read_u32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SLONG => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Signed(cursor.read_i32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::FLOAT => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Float(cursor.read_f32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::DOUBLE => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Double(cursor.read_f64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::RATIONAL => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Rational(
                     cursor.read_u32().await?,
@@ -562,7 +568,7 @@ async fn read_tag_value<F: MetadataFetch>(
             Ok(TagValue::List(v))
         }
         Type::SRATIONAL => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::SRational(
                     cursor.read_i32().await?,
@@ -572,37 +578,39 @@ async fn read_tag_value<F: MetadataFetch>(
             Ok(TagValue::List(v))
         }
         Type::LONG8 => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::UnsignedBig(cursor.read_u64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::SLONG8 => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::SignedBig(cursor.read_i64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::IFD => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::Ifd(cursor.read_u32().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::IFD8 => {
-            let mut v = Vec::with_capacity(count as _);
+            let mut v = Vec::new();
             for _ in 0..count {
                 v.push(TagValue::IfdBig(cursor.read_u64().await?))
             }
             Ok(TagValue::List(v))
         }
         Type::ASCII => {
-            let mut out = vec![0; count as _];
-            let mut buf = cursor.read(count).await?;
-            buf.read_exact(&mut out)?;
+            let buf = cursor.read(count).await?;
+            let out = buf.as_ref().to_vec();
+            if (out.len() as u64) < count {
+                return Err(AsyncTiffError::EndOfFile(count, out.len() as u64));
+            }
             Ok(TagValue::Ascii(parse_ascii(out)))
         }
     }
-- 
2.43.0


From 11cf26fd5908bce7d492df79b7d805741dcb6b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:55 +0000
Subject: [PATCH 14/27] fix: a cycle in the chain of IFDs was followed forever

---
 src/metadata/reader.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/metadata/reader.rs b/src/metadata/reader.rs
index 7b88bab..4e1937e 100644
--- a/src/metadata/reader.rs
+++ b/src/metadata/reader.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::io::Read;
 
 use bytes::Bytes;
@@ -24,6 +24,8 @@ pub struct TiffMetadataReader {
     endianness: Endianness,
     bigtiff: bool,
     next_ifd_offset: Option<u64>,
+    /// The offsets of the IFDs that have already been read, to detect cycles
+    read_ifd_offsets: HashSet<u64>,
 }
 
 impl TiffMetadataReader {
@@ -79,6 +81,7 @@ impl TiffMetadataReader {
             endianness,
             bigtiff,
             next_ifd_offset: Some(first_ifd_location),
+            read_ifd_offsets: HashSet::new(),
         })
     }
 
@@ -112,12 +115,16 @@ impl TiffMetadataReader {
         fetch: &F,
     ) -> AsyncTiffResult<Option<ImageFileDirectory>> {
         if let Some(ifd_start) = self.next_ifd_offset {
+            if self.read_ifd_offsets.contains(&ifd_start) {
+                return Err(TiffError::FormatError(TiffFormatError::CycleInOffsets).into());
+            }
             let ifd_reader =
                 ImageFileDirectoryReader::open(fetch, ifd_start, self.bigtiff, self.endianness)
                     .await?;
             let ifd = ifd_reader.read(fetch).await?;
             let next_ifd_offset = ifd_reader.finish(fetch).await?;
             self.next_ifd_offset = next_ifd_offset;
+            self.read_ifd_offsets.insert(ifd_start);
             Ok(Some(ifd))
         } else {
             Ok(None)
-- 
2.43.0


From bd5cc2be217ef2e7678e1c4d1ef8462b307becf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:18 +0000
Subject: [PATCH 15/27] fix: missing or mistyped required tags panicked instead
 of returning an error

---
 src/ifd.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index 4303248..03257ff 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -224,11 +224,11 @@ impl ImageFileDirectory {
                 Tag::MaxSampleValue => max_sample_value = Some(value.into_u16_vec()?),
                 Tag::XResolution => match value {
                     TagValue::Rational(n, d) => x_resolution = Some(n as f64 / d as f64),
-                    _ => unreachable!("Expected rational type for XResolution."),
+                    _ => return Err(TiffFormatError::InvalidTagValueType(tag).into()),
                 },
                 Tag::YResolution => match value {
                     TagValue::Rational(n, d) => y_resolution = Some(n as f64 / d as f64),
-                    _ => unreachable!("Expected rational type for YResolution."),
+                    _ => return Err(TiffFormatError::InvalidTagValueType(tag).into()),
                 },
                 Tag::PlanarConfiguration => {
                     planar_configuration = PlanarConfiguration::from_u16(value.into_u16()?)
@@ -372,7 +372,8 @@ impl ImageFileDirectory {
             geo_key_directory = Some(GeoKeyDirectory::from_tags(tags)?);
         }
 
-        let samples_per_pixel = samples_per_pixel.expect("samples_per_pixel not found");
+        let required = |tag| TiffError::FormatError(TiffFormatError::RequiredTagNotFound(tag));
+        let samples_per_pixel = samples_per_pixel.ok_or_else(|| required(Tag::SamplesPerPixel))?;
         let planar_configuration = if let Some(planar_configuration) = planar_configuration {
             planar_configuration
         } else if samples_per_pixel == 1 {
@@ -385,14 +386,14 @@ impl ImageFileDirectory {
         Ok(Self {
             endianness,
             new_subfile_type,
-            image_width: image_width.expect("image_width not found"),
-            image_height: image_height.expect("image_height not found"),
-            bits_per_sample: bits_per_sample.expect("bits per sample not found"),
+            image_width: image_width.ok_or_else(|| required(Tag::ImageWidth))?,
+            image_height: image_height.ok_or_else(|| required(Tag::ImageLength))?,
+            bits_per_sample: bits_per_sample.ok_or_else(|| required(Tag::BitsPerSample))?,
             // Defaults to no compression
             // https://web.archive.org/web/20240329145331/https://www.awaresystems.be/imaging/tiff/tifftags/compression.html
             compression: compression.unwrap_or(Compression::None),
             photometric_interpretation: photometric_interpretation
-                .expect("photometric interpretation not found"),
+                .ok_or_else(|| required(Tag::PhotometricInterpretation))?,
             document_name,
             image_description,
             strip_offsets,
-- 
2.43.0


From 3e93949a897ade0b6a44bb798a277616ec7b688f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:19 +0000
Subject: [PATCH 16/27] fix: fetching a tile panicked when BitsPerSample has no
 values

---
 src/ifd.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index 03257ff..8d01f7d 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -383,12 +383,18 @@ impl ImageFileDirectory {
         } else {
             PlanarConfiguration::Chunky
         };
+        let bits_per_sample = bits_per_sample.ok_or_else(|| required(Tag::BitsPerSample))?;
+        if bits_per_sample.is_empty() {
+            return Err(
+                TiffError::from(TiffFormatError::RequiredTagEmpty(Tag::BitsPerSample)).into(),
+            );
+        }
         Ok(Self {
             endianness,
             new_subfile_type,
             image_width: image_width.ok_or_else(|| required(Tag::ImageWidth))?,
             image_height: image_height.ok_or_else(|| required(Tag::ImageLength))?,
-            bits_per_sample: bits_per_sample.ok_or_else(|| required(Tag::BitsPerSample))?,
+            bits_per_sample,
             // Defaults to no compression
             // https://web.archive.org/web/20240329145331/https://www.awaresystems.be/imaging/tiff/tifftags/compression.html
             compression: compression.unwrap_or(Compression::None),
-- 
2.43.0


From 8e65da6f386f93b9c8e0a6fbbf9397e7fb1eca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:44 +0000
Subject: [PATCH 17/27] fix: a malformed GeoKeyDirectory panicked instead of
 returning an error

---
 src/ifd.rs | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index 8d01f7d..224aacc 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -295,25 +295,23 @@ impl ImageFileDirectory {
         // We need to actually parse the GeoKeyDirectory after parsing all other tags because the
         // GeoKeyDirectory relies on `GeoAsciiParamsTag` having been parsed.
         if let Some(data) = geo_key_directory_data {
-            let mut chunks = data.chunks(4);
+            let invalid =
+                || TiffError::from(TiffFormatError::InvalidTagValueType(Tag::GeoKeyDirectory));
+            let mut chunks = data.chunks_exact(4);
 
-            let header = chunks
-                .next()
-                .expect("If the geo key directory exists, a header should exist.");
+            let header = chunks.next().ok_or_else(invalid)?;
             let key_directory_version = header[0];
-            assert_eq!(key_directory_version, 1);
-
             let key_revision = header[1];
-            assert_eq!(key_revision, 1);
+            if key_directory_version != 1 || key_revision != 1 {
+                return Err(invalid().into());
+            }
 
             let _key_minor_revision = header[2];
             let number_of_keys = header[3];
 
             let mut tags = HashMap::with_capacity(number_of_keys as usize);
             for _ in 0..number_of_keys {
-                let chunk = chunks
-                    .next()
-                    .expect("There should be a chunk for each key.");
+                let chunk = chunks.next().ok_or_else(invalid)?;
 
                 let key_id = chunk[0];
                 let tag_name = if let Ok(tag_name) = GeoKeyTag::try_from_primitive(key_id) {
@@ -336,11 +334,11 @@ impl ImageFileDirectory {
                     // If the tag_location points to the value of Tag::GeoAsciiParams, then we
                     // need to extract a subslice from GeoAsciiParams
 
-                    let geo_ascii_params = geo_ascii_params
-                        .as_ref()
-                        .expect("GeoAsciiParamsTag exists but geo_ascii_params does not.");
                     let value_offset = value_offset as usize;
-                    let mut s = &geo_ascii_params[value_offset..value_offset + count as usize];
+                    let mut s = geo_ascii_params
+                        .as_ref()
+                        .and_then(|params| params.get(value_offset..value_offset + count as usize))
+                        .ok_or_else(invalid)?;
 
                     // It seems that this string subslice might always include the final |
                     // character?
@@ -353,17 +351,15 @@ impl ImageFileDirectory {
                     // If the tag_location points to the value of Tag::GeoDoubleParams, then we
                     // need to extract a subslice from GeoDoubleParams
 
-                    let geo_double_params = geo_double_params
-                        .as_ref()
-                        .expect("GeoDoubleParamsTag exists but geo_double_params does not.");
                     let value_offset = value_offset as usize;
+                    let params = geo_double_params
+                        .as_ref()
+                        .and_then(|params| params.get(value_offset..value_offset + count as usize))
+                        .ok_or_else(invalid)?;
                     let value = if count == 1 {
-                        TagValue::Double(geo_double_params[value_offset])
+                        TagValue::Double(params[0])
                     } else {
-                        let x = geo_double_params[value_offset..value_offset + count as usize]
-                            .iter()
-                            .map(|val| TagValue::Double(*val))
-                            .collect();
+                        let x = params.iter().map(|val| TagValue::Double(*val)).collect();
                         TagValue::List(x)
                     };
                     tags.insert(tag_name, value);
-- 
2.43.0


From a215225fb3c6e5affd8159a6f30de2bb262f272b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:22 +0000
Subject: [PATCH 18/27] fix: out-of-range tile indexes panicked or returned
 another tile

A column past the end of a row silently addressed a tile of the next row, and
other out-of-range indexes, short offset tables, zero tile dimensions or
overflowing byte counts panicked. There is no such tile: return None or an
error.
---
 src/ifd.rs | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/ifd.rs b/src/ifd.rs
index 224aacc..ebb361a 100644
--- a/src/ifd.rs
+++ b/src/ifd.rs
@@ -723,11 +723,15 @@ impl ImageFileDirectory {
     }
 
     /// Find the byte range(s) for the tile located at `x` column and `y` row.
+    ///
+    /// Returns `None` if this is not a tiled TIFF or if there is no such tile.
     pub fn tile_byte_range(&self, x: usize, y: usize) -> Option<TileByteRange> {
         TileByteRange::from_ifd_tile(self, x, y)
     }
 
     /// Find the byte ranges for the tiles located at `x` column and `y` row.
+    ///
+    /// Returns `None` if this is not a tiled TIFF or if any of the tiles does not exist.
     pub fn tiles_byte_ranges(&self, xy: &[(usize, usize)]) -> Option<TilesByteRanges> {
         TilesByteRanges::from_ifd_tiles(self, xy)
     }
@@ -744,7 +748,10 @@ impl ImageFileDirectory {
     ) -> AsyncTiffResult<Tile> {
         let byte_ranges = self
             .tile_byte_range(x, y)
-            .ok_or(AsyncTiffError::General("Not a tiled TIFF".to_string()))?;
+            .ok_or_else(|| match self.tile_count() {
+                Some(_) => AsyncTiffError::TileIndexError(x as u32, y as u32),
+                None => AsyncTiffError::General("Not a tiled TIFF".to_string()),
+            })?;
         let compressed_bytes = byte_ranges.into_fetch(reader).await?;
         Ok(compressed_bytes.into_tile(x, y, self))
     }
@@ -755,9 +762,9 @@ impl ImageFileDirectory {
         xy: &[(usize, usize)],
         reader: &dyn AsyncFileReader,
     ) -> AsyncTiffResult<Vec<Tile>> {
-        let byte_ranges = self
-            .tiles_byte_ranges(xy)
-            .ok_or(AsyncTiffError::General("Not a tiled TIFF".to_string()))?;
+        let byte_ranges = self.tiles_byte_ranges(xy).ok_or(AsyncTiffError::General(
+            "Not a tiled TIFF or tile index out of bounds".to_string(),
+        ))?;
         let compressed_bytes = byte_ranges.into_fetch(reader).await?;
         Ok(compressed_bytes
             .into_iter()
@@ -769,6 +776,9 @@ impl ImageFileDirectory {
     /// Return the number of x/y tiles in the IFD
     /// Returns `None` if this is not a tiled TIFF
     pub fn tile_count(&self) -> Option<(usize, usize)> {
+        if self.tile_width == Some(0) || self.tile_height == Some(0) {
+            return None;
+        }
         let x_count = (self.image_width as f64 / self.tile_width? as f64).ceil();
         let y_count = (self.image_height as f64 / self.tile_height? as f64).ceil();
         Some((x_count as usize, y_count as usize))
@@ -799,24 +809,32 @@ impl TileByteRange {
         let tile_offsets = ifd.tile_offsets.as_deref()?;
         let tile_byte_counts = ifd.tile_byte_counts.as_deref()?;
         let (tiles_per_row, tiles_per_col) = ifd.tile_count()?;
+        // A column past the end of its row must not alias a tile of the next row
+        if x >= tiles_per_row || y >= tiles_per_col {
+            return None;
+        }
         match ifd.planar_configuration {
             PlanarConfiguration::Chunky => {
                 let idx = (y * tiles_per_row) + x;
-                let offset = tile_offsets[idx];
-                let byte_count = tile_byte_counts[idx];
-                Some(TileByteRange::Chunky(offset..(offset + byte_count)))
+                let offset = *tile_offsets.get(idx)?;
+                let byte_count = *tile_byte_counts.get(idx)?;
+                Some(TileByteRange::Chunky(
+                    offset..offset.checked_add(byte_count)?,
+                ))
             }
             PlanarConfiguration::Planar => {
                 let tiles_per_band = tiles_per_row * tiles_per_col;
                 let num_bands = ifd.samples_per_pixel as usize;
                 let band_ranges = (0..num_bands)
                     .map(|band| {
-                        let band_idx = (band * tiles_per_band) + (y * tiles_per_row) + x;
-                        let offset = tile_offsets[band_idx];
-                        let byte_count = tile_byte_counts[band_idx];
-                        offset..(offset + byte_count)
+                        let band_idx = band
+                            .checked_mul(tiles_per_band)?
+                            .checked_add((y * tiles_per_row) + x)?;
+                        let offset = *tile_offsets.get(band_idx)?;
+                        let byte_count = *tile_byte_counts.get(band_idx)?;
+                        Some(offset..offset.checked_add(byte_count)?)
                     })
-                    .collect::<Vec<_>>();
+                    .collect::<Option<Vec<_>>>()?;
                 Some(TileByteRange::Planar(band_ranges))
             }
         }
-- 
2.43.0


From f613bde2eaf5c5b2bbd65ebe1f76f5882427d20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:23 +0000
Subject: [PATCH 19/27] fix: single 32- and 64-bit values were refused where
 lists of them are accepted

`into_u16_vec` converted a list of LONG or LONG8 values that fit, but not a
single one.
---
 src/tag_value.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tag_value.rs b/src/tag_value.rs
index 4b4d4e9..d3e7bdd 100644
--- a/src/tag_value.rs
+++ b/src/tag_value.rs
@@ -237,6 +237,8 @@ impl TagValue {
             }
             Byte(val) => Ok(vec![val.into()]),
             Short(val) => Ok(vec![val]),
+            Unsigned(val) => Ok(vec![u16::try_from(val)?]),
+            UnsignedBig(val) => Ok(vec![u16::try_from(val)?]),
             val => Err(TiffError::FormatError(TiffFormatError::ShortExpected(val))),
         }
     }
-- 
2.43.0


From 4a423bef3d4ad460cacc6eb0a7bd33d3088f76a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:23 +0000
Subject: [PATCH 20/27] fix: readahead cache preallocated for the requested
 range, not the available bytes

The requested range comes from unvalidated tag counts. Also saturate the end of
the fetched range for large multipliers.
---
 src/metadata/cache.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/metadata/cache.rs b/src/metadata/cache.rs
index 80f498f..d662db0 100644
--- a/src/metadata/cache.rs
+++ b/src/metadata/cache.rs
@@ -39,9 +39,6 @@ impl SequentialBlockCache {
 
     /// Slice out the given range from the cached buffers
     fn slice(&self, range: Range<u64>) -> Bytes {
-        // The size of the output buffer
-        let out_len = (range.end - range.start) as usize;
-
         // The remaining range of bytes required. This range is updated as we traverse buffers, so
         // the indexes are relative to the current buffer.
         let mut remaining = range;
@@ -82,7 +79,7 @@ impl SequentialBlockCache {
         if out_buffers.len() == 1 {
             out_buffers.into_iter().next().unwrap()
         } else {
-            let mut out = BytesMut::with_capacity(out_len);
+            let mut out = BytesMut::with_capacity(out_buffers.iter().map(Bytes::len).sum());
             for b in out_buffers {
                 out.extend_from_slice(&b);
             }
@@ -158,7 +155,7 @@ impl<F: MetadataFetch + Send + Sync> MetadataFetch for ReadaheadMetadataCache<F>
         let start_len = cache.len;
         let needed = range.end.saturating_sub(start_len);
         let fetch_size = self.next_fetch_size(start_len).max(needed);
-        let fetch_range = start_len..start_len + fetch_size;
+        let fetch_range = start_len..start_len.saturating_add(fetch_size);
 
         // Perform the fetch while holding mutex
         // (this is OK because the mutex is async)
-- 
2.43.0


From 7df3977944a75087964e9c7441af6553c6b9b642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:19 +0000
Subject: [PATCH 21/27] fix: multi-component JPEG tiles with a grayscale
 interpretation panicked or were scrambled

---
 src/decoder.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 6b225b5..ca05619 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -393,13 +393,29 @@ fn decode_modern_jpeg(
     };
 
     let mut decoder = jpeg::Decoder::new(jpeg_reader);
+    let mut complemented = false;
 
     match photometric_interpretation {
         PhotometricInterpretation::RGB => decoder.set_color_transform(jpeg::ColorTransform::RGB),
         PhotometricInterpretation::WhiteIsZero
         | PhotometricInterpretation::BlackIsZero
         | PhotometricInterpretation::TransparencyMask => {
-            decoder.set_color_transform(jpeg::ColorTransform::None)
+            // `ColorTransform::None` does not interleave components, so it is only right for a single
+            // component. Otherwise use the transform that keeps the components as they are, or, for
+            // four components, that can be undone.
+            decoder.read_info()?;
+            let info = decoder.info();
+            match info.as_ref().map(|info| info.pixel_format) {
+                Some(jpeg::PixelFormat::RGB24) => {
+                    decoder.set_color_transform(jpeg::ColorTransform::RGB)
+                }
+                Some(jpeg::PixelFormat::CMYK32) => {
+                    decoder.set_color_transform(jpeg::ColorTransform::CMYK);
+                    complemented = info
+                        .is_some_and(|info| info.coding_process != jpeg::CodingProcess::Lossless);
+                }
+                _ => decoder.set_color_transform(jpeg::ColorTransform::None),
+            }
         }
         PhotometricInterpretation::CMYK => decoder.set_color_transform(jpeg::ColorTransform::CMYK),
         PhotometricInterpretation::YCbCr => {
@@ -413,6 +429,9 @@ fn decode_modern_jpeg(
         }
     }
 
-    let data = decoder.decode()?;
+    let mut data = decoder.decode()?;
+    if complemented {
+        data.iter_mut().for_each(|value| *value = 255 - *value);
+    }
     Ok(data)
 }
-- 
2.43.0


From b2403588cd64b4fb77bafa4ebdf5365cce6df1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:28 +0000
Subject: [PATCH 22/27] fix: NaN pixels of floating-point LERC tiles decoded to
 zero

---
 src/decoder.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index ca05619..b021d55 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -132,8 +132,9 @@ pub struct LercDecoder;
 fn decode_lerc<T: lerc::LercDataType + bytemuck::Pod>(
     buffer: &[u8],
     info: &lerc::BlobInfo,
+    invalid: Option<T>,
 ) -> AsyncTiffResult<Vec<u8>> {
-    let (data, _mask) = lerc::decode::<T>(
+    let (mut data, mask) = lerc::decode::<T>(
         buffer,
         info.width as usize,
         info.height as usize,
@@ -143,6 +144,16 @@ fn decode_lerc<T: lerc::LercDataType + bytemuck::Pod>(
     )
     .map_err(|e| AsyncTiffError::General(format!("LERC decode failed: {e}")))?;
 
+    // LERC moves NaN pixels to the mask; put them back. There is one mask, or one per band.
+    if let (Some(invalid), Some(mask)) = (invalid, mask) {
+        let depth = (info.depth as usize).max(1);
+        for (pixel, valid) in data.chunks_mut(depth).zip(mask.iter().cycle()) {
+            if *valid == 0 {
+                pixel.fill(invalid);
+            }
+        }
+    }
+
     // TODO: in the future we could avoid this copy by allowing the return type of the decoder to
     // be a typed array, not just Vec<u8>
     Ok(bytemuck::cast_slice(&data).to_vec())
@@ -184,14 +195,14 @@ impl Decoder for LercDecoder {
         // LERC data_type mapping (from LERC C API):
         // 0=i8, 1=u8, 2=i16, 3=u16, 4=i32, 5=u32, 6=f32, 7=f64
         match info.data_type {
-            0 => decode_lerc::<i8>(&lerc_blob, &info),
-            1 => decode_lerc::<u8>(&lerc_blob, &info),
-            2 => decode_lerc::<i16>(&lerc_blob, &info),
-            3 => decode_lerc::<u16>(&lerc_blob, &info),
-            4 => decode_lerc::<i32>(&lerc_blob, &info),
-            5 => decode_lerc::<u32>(&lerc_blob, &info),
-            6 => decode_lerc::<f32>(&lerc_blob, &info),
-            7 => decode_lerc::<f64>(&lerc_blob, &info),
+            0 => decode_lerc::<i8>(&lerc_blob, &info, None),
+            1 => decode_lerc::<u8>(&lerc_blob, &info, None),
+            2 => decode_lerc::<i16>(&lerc_blob, &info, None),
+            3 => decode_lerc::<u16>(&lerc_blob, &info, None),
+            4 => decode_lerc::<i32>(&lerc_blob, &info, None),
+            5 => decode_lerc::<u32>(&lerc_blob, &info, None),
+            6 => decode_lerc::<f32>(&lerc_blob, &info, Some(f32::NAN)),
+            7 => decode_lerc::<f64>(&lerc_blob, &info, Some(f64::NAN)),
             _ => Err(AsyncTiffError::General(format!(
                 "Unsupported LERC data type: {}",
                 info.data_type
-- 
2.43.0


From 23ea756779c552387fea4cbf5c9268d7d3cca3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:49 +0000
Subject: [PATCH 23/27] fix: report the buffer length of a Python Array in
 bytes, not elements

---
 python/src/array.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/array.rs b/python/src/array.rs
index dca9610..b3d6aaf 100644
--- a/python/src/array.rs
+++ b/python/src/array.rs
@@ -296,7 +296,7 @@ impl PyArray {
         // Fill in the Py_buffer struct fields
         // SAFETY: view is a valid pointer provided by Python's buffer protocol machinery
         (*view).buf = data_as_ptr(&slf.data);
-        (*view).len = slf.data.len() as isize;
+        (*view).len = (slf.data.len() * itemsize) as isize;
         (*view).itemsize = itemsize as isize;
         (*view).readonly = 1; // Read-only buffer
         (*view).ndim = 3;
-- 
2.43.0


From d5dee6d2fb211e44b122c365f760861474d6742a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:23 +0000
Subject: [PATCH 24/27] fix: raise ValueError instead of panicking in
 header_byte_size when no IFD has data offsets

---
 python/src/tiff.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/tiff.rs b/python/src/tiff.rs
index 3cdb2c2..d7b808f 100644
--- a/python/src/tiff.rs
+++ b/python/src/tiff.rs
@@ -4,7 +4,7 @@ use async_tiff::metadata::cache::ReadaheadMetadataCache;
 use async_tiff::metadata::TiffMetadataReader;
 use async_tiff::reader::{AsyncFileReader, Endianness};
 use async_tiff::ImageFileDirectory;
-use pyo3::exceptions::{PyIndexError, PyTypeError};
+use pyo3::exceptions::{PyIndexError, PyTypeError, PyValueError};
 use pyo3::prelude::*;
 use pyo3::types::PyType;
 use pyo3_async_runtimes::tokio::future_into_py;
@@ -67,7 +67,7 @@ impl PyTIFF {
     }
 
     #[getter]
-    fn header_byte_size(&self) -> u64 {
+    fn header_byte_size(&self) -> PyResult<u64> {
         self.ifds
             .iter()
             .flat_map(|ifd| {
@@ -79,7 +79,7 @@ impl PyTIFF {
                     .filter(|&o| o != 0)
             })
             .min()
-            .expect("TIFF spec requires every IFD to have StripOffsets or TileOffsets")
+            .ok_or_else(|| PyValueError::new_err("No IFD has StripOffsets or TileOffsets"))
     }
 
     fn ifd(&self, index: usize) -> PyResult<PyImageFileDirectory> {
-- 
2.43.0


From 3a25e0ce43fbb2164da4580b40f6b64bdda74764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:41 +0000
Subject: [PATCH 25/27] fix: make decoder_registry optional in
 Tile.decode_sync, as documented

---
 python/src/tile.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/tile.rs b/python/src/tile.rs
index 535723c..73053d1 100644
--- a/python/src/tile.rs
+++ b/python/src/tile.rs
@@ -56,6 +56,7 @@ impl PyTile {
             .map(|t| t.compression_method().into())
     }
 
+    #[pyo3(signature = (*, decoder_registry=None))]
     fn decode_sync<'py>(
         &mut self,
         py: Python<'py>,
-- 
2.43.0


From 071897b77a3d76b55758c098968657df27199a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:02 +0000
Subject: [PATCH 26/27] fix: reject a Python Array whose data does not match
 its shape and format instead of panicking or exposing out-of-bounds memory

---
 python/src/array.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/python/src/array.rs b/python/src/array.rs
index b3d6aaf..c0ab2a0 100644
--- a/python/src/array.rs
+++ b/python/src/array.rs
@@ -225,7 +225,21 @@ impl PyArray {
     fn py_new(array: PyBytes, shape: [usize; 3], format: &str) -> PyResult<Self> {
         let data_type = parse_buffer_format_string(format)?;
         let itemsize = data_type.size();
-        let typed_data = TypedArray::try_new(array.into_inner().to_vec(), Some(data_type)).unwrap();
+        let data = array.into_inner();
+        let expected_len = shape
+            .iter()
+            .rev()
+            .try_fold(itemsize, |len, dim| len.checked_mul(*dim));
+        if expected_len != Some(data.len())
+            || shape.iter().any(|dim| isize::try_from(*dim).is_err())
+        {
+            return Err(PyValueError::new_err(format!(
+                "{} bytes do not match shape {shape:?} and format '{format}'",
+                data.len()
+            )));
+        }
+        let typed_data = TypedArray::try_new(data.to_vec(), Some(data_type))
+            .map_err(|err| PyValueError::new_err(err.to_string()))?;
         let shape = [shape[0] as isize, shape[1] as isize, shape[2] as isize];
         // Row-major (C-contiguous) strides: [dim1 * dim2 * itemsize, dim2 * itemsize, itemsize]
         let strides = [
-- 
2.43.0


From 7b0a59b8af30239a7815c0ffbe065b7705c89843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:33 +0000
Subject: [PATCH 27/27] fix: make the buffer length of a Python Colormap agree
 with its shape

---
 python/src/colormap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/colormap.rs b/python/src/colormap.rs
index 674a77c..afc259c 100644
--- a/python/src/colormap.rs
+++ b/python/src/colormap.rs
@@ -53,7 +53,7 @@ impl PyColormap {
         flags: c_int,
     ) -> PyResult<()> {
         (*view).buf = slf.data.as_ptr() as *mut _;
-        (*view).len = (slf.data.len() * 2) as isize;
+        (*view).len = slf.shape[0] * slf.shape[1] * 2;
         (*view).itemsize = 2;
         (*view).readonly = 1;
         (*view).ndim = 2;
-- 
2.43.0

