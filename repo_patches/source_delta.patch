From 80d028efda7a555e9bac144d2847d4bb74aaf48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 01/23] fix: WavCodec::save_to must write the whole header
 (write_all)

---
 src/codec/wav.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 5855b70..1ea14d2 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -124,7 +124,7 @@ impl WavCodec {
         header.bits_per_sample = 16;
         header.file_size_data = self.pcm.len() as u32;
         // println!("header:\n{}\n",header);
-        dst.write(header.as_bytes())
+        dst.write_all(header.as_bytes())
             .map_err(|_| "failed to write header")?;
         dst.write_all(&self.pcm)
             .map_err(|_| "failed to write pcm data")
-- 
2.43.0


From 64c16a62a1379e71e0872bba8deac3a005bba6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 02/23] fix: WavCodec must not view its byte buffer as a
 misaligned &[i16]

---
 src/codec/wav.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 1ea14d2..e781236 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -225,13 +225,9 @@ impl WavCodec {
         self.pcm.len() / 2
     }
 
-    fn get_pcm(pcm: &Vec<u8>) -> &[i16] {
-        unsafe { slice::from_raw_parts(pcm.as_ptr() as *const i16, pcm.len() / 2) }
-    }
-
-    #[allow(dead_code)]
-    fn get_pcm_mut(pcm: &mut Vec<u8>) -> &mut [i16] {
-        unsafe { slice::from_raw_parts_mut(pcm.as_ptr() as *mut i16, pcm.len() / 2) }
+    /// reads the sample at `index` (pcm bytes are not necessarily aligned for i16)
+    fn get_sample(pcm: &[u8], index: usize) -> i16 {
+        i16::from_le_bytes([pcm[2 * index], pcm[2 * index + 1]])
     }
 
     /// writes a sample at current cursor positions (will offset the cursor)
@@ -279,13 +275,12 @@ impl Streamable for WavCodec {
         let num_channels = self.info().channels();
         let stream_length = self.num_samples() as u64;
         let cursor = &mut self.short_cursor;
-        let samples_list = Self::get_pcm(&self.pcm);
 
         //makes sure we can't write partial PCM 'blocks'
         let valid_length = (out.len() / num_channels) * num_channels;
 
         while *cursor < stream_length && out_cursor < valid_length {
-            let sample_i16 = samples_list[*cursor as usize];
+            let sample_i16 = Self::get_sample(&self.pcm, *cursor as usize);
             let normalized_sample = normalize_sample(sample_i16);
             out[out_cursor] = normalized_sample;
             *cursor += 1;
-- 
2.43.0


From aa87c280e4fa8f6bfd3a93d5676cb6cbcca031b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 03/23] fix: WavCodec::load must accept short files and not
 panic when the data tag ends the header

---
 src/codec/wav.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index e781236..670ddbe 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -135,10 +135,13 @@ impl WavCodec {
     where
         Resource: Read + Seek,
     {
-        let mut header_binary = [0u8; 256];
+        //short files are allowed to have less than 256 bytes
+        let mut header_binary = Vec::new();
 
         wav_res
-            .read_exact(&mut header_binary)
+            .by_ref()
+            .take(256)
+            .read_to_end(&mut header_binary)
             .map_err(|_| "failed to read header bytes")?;
 
         let mut header_slice = &header_binary[..];
@@ -149,10 +152,12 @@ impl WavCodec {
         let (data_start, _) = header_binary
             .windows(4)
             .enumerate()
-            .find(|(_, window)| {
+            .find(|(index, window)| {
                 let number = [b'd', b'a', b't', b'a'];
-                window == &number
+                //the data chunk comes after the format chunk
+                *index >= 36 && window == &number
             })
+            .filter(|(index, _)| index + 8 <= header_binary.len())
             .ok_or("data region not found")?;
 
         header_slice
-- 
2.43.0


From a6e0d9c34baac0bec057983e219256979eafe9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 04/23] fix: WavCodec::load must reject headers without
 channels

---
 src/codec/wav.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 670ddbe..fe3788f 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -187,6 +187,9 @@ impl WavCodec {
         if header.audio_format != 1 {
             return Err("formats other than PCM liner isn't supported");
         }
+        if header.num_channels < 1 {
+            return Err("invalid number of channels");
+        }
 
         // println!("parsed header: {}",header);
         // println!("pcm data = {} byles", wav_binary.len());
-- 
2.43.0


From 5d7702424d888b0bfb906c9490fe484afb50c763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 05/23] fix: WavCodec::load must not decode chunks after the
 data chunk as audio

---
 src/codec/wav.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index fe3788f..853b8c9 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -203,6 +203,11 @@ impl WavCodec {
             .read_to_end(&mut pcm)
             .map_err(|_| "failed to read to end")?;
 
+        //only keep the (whole) sample frames that belong to the data chunk
+        let bytes_per_block = header.num_channels as usize * (header.bits_per_sample as usize / 8);
+        let data_len = pcm.len().min(header.file_size_data as usize);
+        pcm.truncate(data_len - data_len % bytes_per_block);
+
         if header.bits_per_sample == 8 {
             //convert 8bit stream to 16bit
             let len = pcm.len();
-- 
2.43.0


From 4a52d6e0c8cf09989adbac5b7bf4a479462ecedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 06/23] fix: WavCodec::seek must stay on block boundaries,
 anchor End at the end and not panic on empty streams

---
 src/codec/wav.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 853b8c9..2eaafb0 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -306,28 +306,25 @@ impl Streamable for WavCodec {
     fn seek(&mut self, dt: SeekFrom) {
         let sample_rate = self.info.sample_rate as f32;
         let num_channels = self.info.channels() as i64;
-        let num_samples = self.num_samples() as i64;
+        let num_blocks = self.num_samples() as i64 / num_channels;
 
         let sample_rate_in_milliseconds = sample_rate / 1000.0;
 
-        match dt {
+        let block_index = match dt {
             SeekFrom::Current(dt) => {
                 let sample_offset = (sample_rate_in_milliseconds * (dt as f32)) as i64;
-                let block_index = (self.short_cursor as i64 / num_channels) * num_channels;
-                self.short_cursor =
-                    (block_index + sample_offset * num_channels).clamp(0, num_samples - 1) as u64;
-            }
-            SeekFrom::Start(dt) => {
-                let sample_offset = (sample_rate_in_milliseconds * (dt as f32)) as i64;
-                self.short_cursor = (sample_offset * num_channels).clamp(0, num_samples - 1) as u64;
+                let block_index = self.short_cursor as i64 / num_channels;
+                block_index.saturating_add(sample_offset)
             }
+            SeekFrom::Start(dt) => (sample_rate_in_milliseconds * (dt as f32)) as i64,
             SeekFrom::End(dt) => {
                 let sample_offset = (sample_rate_in_milliseconds * (dt as f32)) as i64;
-                let block_index = num_samples - num_samples;
-                self.short_cursor =
-                    (block_index + sample_offset * num_channels).clamp(0, num_samples - 1) as u64;
+                num_blocks.saturating_add(sample_offset)
             }
-        }
+        };
+
+        //only whole blocks can be seeked to
+        self.short_cursor = (block_index.clamp(0, num_blocks) * num_channels) as u64;
     }
 }
 
-- 
2.43.0


From e65eb6973050fba6f3044aa966e539d3e2b3616d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 07/23] fix: WavCodec::save_to must report streams its header
 fields cannot describe

---
 src/codec/wav.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/codec/wav.rs b/src/codec/wav.rs
index 2eaafb0..cddf3cc 100755
--- a/src/codec/wav.rs
+++ b/src/codec/wav.rs
@@ -113,14 +113,25 @@ impl WavCodec {
     where
         Resource: Write,
     {
+        let block_align = self.info.channels as u64 * 2;
+        let bytes_per_sec = self.info.sample_rate as u64 * block_align;
+        let max_pcm_len = u32::MAX as usize - mem::size_of::<RawWavHeader>();
+
+        if block_align > u16::MAX as u64
+            || bytes_per_sec > u32::MAX as u64
+            || self.pcm.len() > max_pcm_len
+        {
+            return Err("stream doesn't fit in a wav file");
+        }
+
         let mut header = RawWavHeader::default();
         header.file_size = mem::size_of::<RawWavHeader>() as u32 - 8 + self.pcm.len() as u32;
         header.frequncy = self.info.sample_rate as i32;
         header.audio_format = 1;
         header.num_channels = self.info.channels as i16;
         header.cksize = 16;
-        header.bytes_per_sec = (header.frequncy * header.num_channels as i32 * 16) / 8;
-        header.block_align = (header.num_channels * 16) / 8;
+        header.bytes_per_sec = bytes_per_sec as i32;
+        header.block_align = block_align as i16;
         header.bits_per_sample = 16;
         header.file_size_data = self.pcm.len() as u32;
         // println!("header:\n{}\n",header);
-- 
2.43.0


From 637dc0e20b0b3ac03df4daf1bce2ca5dce5cb2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 08/23] fix: BitStream::write_bits must not mix stale bits of
 the next chunk into the value

---
 src/collections/bitstream.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index f07f9d8..889af2d 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -129,10 +129,8 @@ impl BitStream {
 
         let remaining_bits = CHUNK_SIZE_IN_BITS - chunk_bit_idx;
         if remaining_bits < bits_to_be_written {
-            //clear
-            self.binary[nxt_chunk_idx] &= (1 << (bits_to_be_written - remaining_bits)) - 1;
-            //write
-            self.binary[nxt_chunk_idx] |= bits >> remaining_bits;
+            //clear and write
+            self.binary[nxt_chunk_idx] = bits >> remaining_bits;
         }
 
         self.offset_bit_cursor(bits_to_be_written as i128);
-- 
2.43.0


From 555bb2a96ec0b2a7a36eb990a64d5fc03d4a532d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 09/23] fix: BitStream must not panic when its cursor is beyond
 the allocated chunks

---
 src/collections/bitstream.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index 889af2d..d9a378a 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -149,9 +149,6 @@ impl BitStream {
         let nxt_chunk_idx = cur_chunk_idx + 1;
         let chunk_bit_idx = self.chunk_bit_index();
 
-        self.allocate_if_needed(cur_chunk_idx);
-        self.allocate_if_needed(nxt_chunk_idx);
-
         // return 0 if oob
         if cur_chunk_idx >= self.binary.len() {
             return 0;
@@ -159,7 +156,7 @@ impl BitStream {
 
         bits |= self.binary[cur_chunk_idx] >> chunk_bit_idx;
         let remaining_bits = 128 - chunk_bit_idx;
-        if remaining_bits < bits_to_be_read {
+        if remaining_bits < bits_to_be_read && nxt_chunk_idx < self.binary.len() {
             bits |= self.binary[nxt_chunk_idx] << remaining_bits
         }
 
@@ -232,7 +229,7 @@ impl BitStream {
 
     fn allocate_if_needed(&mut self, chunk_idx: usize) {
         if chunk_idx >= self.binary.len() {
-            self.binary.push(0);
+            self.binary.resize(chunk_idx + 1, 0);
         }
     }
 
-- 
2.43.0


From fc2368409140979da7c3d46db17a2c10d0d0b735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 10/23] fix: entropy code must support exponent 15 and every
 16-bit value without overflow

---
 src/collections/bitstream.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/collections/bitstream.rs b/src/collections/bitstream.rs
index d9a378a..cdf8e9a 100755
--- a/src/collections/bitstream.rs
+++ b/src/collections/bitstream.rs
@@ -277,8 +277,8 @@ impl BitStream {
 
     pub fn write_compressed(&mut self, exponent: i16, entropy: i16) {
         let sign_bit = (entropy >> 15) & 1;
-        let mut quotient = entropy.abs() >> exponent;
-        let remainder = entropy.abs() & ((1 << exponent) - 1);
+        let mut quotient = entropy.unsigned_abs() >> exponent;
+        let remainder = entropy.unsigned_abs() & ((1 << exponent) - 1);
         let remainder_size_in_bits = exponent as usize;
 
         //write sign bit
@@ -316,10 +316,10 @@ impl BitStream {
         //write sign bit
         let sign_bit = self.read_bit() as i16;
         let remainder_size_in_bits = exponent as u32;
-        let divisor = 1 << exponent;
+        let divisor = 1i16 << exponent;
 
         //read zero(expected)
-        let mut quotient = 0;
+        let mut quotient = 0i16;
 
         #[allow(unused_assignments)]
         let mut bit_chunk = 0;
@@ -329,7 +329,7 @@ impl BitStream {
             bit_chunk.count_zeros() == 0
         } {
             self.offset_bit_cursor(128);
-            quotient += 128;
+            quotient = quotient.wrapping_add(128);
         }
 
         // 128-bit chunk that was peeked cointains zero so count
@@ -340,12 +340,12 @@ impl BitStream {
             bit_chunk >>= 1;
         }
         self.offset_bit_cursor(zero_bit_pos + 1);
-        quotient += zero_bit_pos.max(0) as i16;
+        quotient = quotient.wrapping_add(zero_bit_pos.max(0) as i16);
 
         // read
         let remainder = self.read_bits(remainder_size_in_bits as usize) as i16;
-        let unsigned_val = divisor * quotient + remainder;
-        unsigned_val * (-sign_bit) + unsigned_val * (1 - sign_bit)
+        let unsigned_val = divisor.wrapping_mul(quotient).wrapping_add(remainder);
+        unsigned_val.wrapping_mul(1 - 2 * sign_bit)
     }
 
     fn chunk_index(&self) -> usize {
-- 
2.43.0


From 771484cbf2d05aaac18bdf6493c737f29a8a3f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 11/23] fix: clamped residuals made encoder and decoder drift
 apart on full scale jumps

---
 src/codec/adhoc/frame.rs | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 1eb2011..94df80d 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -240,9 +240,8 @@ impl FrameCodec {
                     parabola.compute_coefs();
                     let predicted = truncate_sample(parabola.eval(3.0));
 
-                    let entropy = (current as i32 - predicted as i32)
-                        .clamp(i16::MIN as i32 + 1, i16::MAX as i32 - 1)
-                        as i16;
+                    //wraps around, decode_frame(..) wraps back
+                    let entropy = current.wrapping_sub(predicted);
 
                     max_entropy = max_entropy.max(entropy);
                     stream.write_compressed(divisor_exp, entropy);
@@ -277,9 +276,8 @@ impl FrameCodec {
                     parabola.compute_coefs();
                     let predicted = truncate_sample(parabola.eval(3.0));
 
-                    let entropy = (current as i32 - predicted as i32)
-                        .clamp(i16::MIN as i32 + 1, i16::MAX as i32 - 1)
-                        as i16;
+                    //wraps around, decode_frame(..) wraps back
+                    let entropy = current.wrapping_sub(predicted);
 
                     max_entropy = max_entropy.max(entropy);
                     stream.write_compressed(divisor_exp, entropy);
@@ -326,10 +324,8 @@ impl FrameCodec {
                         parabola.compute_coefs();
                         let predicted = truncate_sample(parabola.eval(3.0));
 
-                        //casted to i32 to avoid overflow issues
-                        let current = (entropy as i32 + predicted as i32)
-                            .clamp(i16::MIN as i32, i16::MAX as i32)
-                            as i16;
+                        //undoes the wrapping subtraction in encode_frame(..)
+                        let current = predicted.wrapping_add(entropy);
 
                         let decoded_sample = normalize_sample(current).clamp(-1.0, 1.0);
                         sample_buffer.push_back(decoded_sample);
@@ -353,10 +349,8 @@ impl FrameCodec {
                         parabola.compute_coefs();
                         let predicted = truncate_sample(parabola.eval(3.0));
 
-                        //casted to i32 to avoid overflow issues
-                        let current = (entropy as i32 + predicted as i32)
-                            .clamp(i16::MIN as i32, i16::MAX as i32)
-                            as i16;
+                        //undoes the wrapping subtraction in encode_frame(..)
+                        let current = predicted.wrapping_add(entropy);
 
                         let decoded_sample = normalize_sample(current).clamp(-1.0, 1.0);
                         sample_buffer.push_back(decoded_sample);
@@ -386,7 +380,7 @@ impl FrameCodec {
             ];
             parabola.compute_coefs();
             let predicted = truncate_sample(parabola.eval(3.0));
-            let entropy = (current as i32 - predicted as i32).abs() as u32;
+            let entropy = current.wrapping_sub(predicted).unsigned_abs() as u32;
             for k in 1..16 {
                 let quotient_bits = (entropy >> k) + 1;
                 let remainder_bits = k as u32;
-- 
2.43.0


From eb078b1f7fc84f7cb2cf1c43cdd5d431a1cf023c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 12/23] fix: AdhocCodec::decode must not scale the part of the
 buffer it did not fill

---
 src/codec/adhoc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 4806b20..d29144a 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -300,7 +300,7 @@ impl AdhocCodec {
         }
 
         //scale up signal
-        for s in pcm_out {
+        for s in &mut pcm_out[..pcm_out_cursor] {
             *s *= self.scale
         }
 
-- 
2.43.0


From 2ccfe652522c1b30c736b3bab47e78901830596c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 13/23] fix: AdhocCodec::encode must not count a trailing
 partial block as encoded

---
 src/codec/adhoc.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index d29144a..e5d5137 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -319,9 +319,13 @@ impl Streamable for AdhocCodec {
     }
 
     fn encode(&mut self, samples: &[f32]) -> Option<usize> {
-        self.encode(samples);
+        //partial blocks at the end are dropped, same as WavCodec
+        let num_channels = self.info().channels();
+        let valid_len = (samples.len() / num_channels) * num_channels;
 
-        Some(samples.len())
+        self.encode(&samples[..valid_len]);
+
+        Some(valid_len)
     }
 
     fn decode(&mut self, samples: &mut [f32]) -> Option<usize> {
-- 
2.43.0


From de4ed15c52ab9d1a5ac9ace62cc9744ae7bbe1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 14/23] fix: AdhocCodec::encode must split blocks whose size
 does not fit in a frame header

---
 src/codec/adhoc.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index e5d5137..1a3afd1 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -323,7 +323,10 @@ impl Streamable for AdhocCodec {
         let num_channels = self.info().channels();
         let valid_len = (samples.len() / num_channels) * num_channels;
 
-        self.encode(&samples[..valid_len]);
+        //the size of a frame is stored in 16 bits
+        for block in samples[..valid_len].chunks(u16::MAX as usize * num_channels) {
+            self.encode(block);
+        }
 
         Some(valid_len)
     }
-- 
2.43.0


From f675cff4d7ac62a9c86d464b0cc73b8baf0c6807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 15/23] fix: first frames with less than three samples per
 channel must not panic

---
 src/codec/adhoc/frame.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 94df80d..dd38d0b 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -186,6 +186,7 @@ impl FrameCodec {
 
     pub fn init(&mut self) {
         self.state = CodecState::Init;
+        self.sample_history = CircularStack::new();
         self.buffered_channel.clear();
     }
 
@@ -205,16 +206,17 @@ impl FrameCodec {
                 // save bit cursor before modifying stream
                 let bit_cursor = stream.bit_cursor();
 
-                // write first three samples into the stream
-                // and also record then in the history queue
-                for k in 0..3 {
+                // write first three samples (or less, if the frame is that short) into
+                // the stream and also record then in the history queue
+                let num_samples_pre_written = pcm.len().min(3);
+                for k in 0..num_samples_pre_written {
                     let samp = pcm[k];
                     let truncated = truncate_sample(samp);
                     stream.write::<u16>(truncated as u16);
                     sample_history.push(truncated);
                 }
 
-                let divisor_exp = Self::compute_optimal_divisor_exponent(sample_history, &pcm[3..]);
+                let divisor_exp = Self::compute_optimal_divisor_exponent(sample_history, &pcm[num_samples_pre_written..]);
 
                 frame_headers.push(FrameHeader {
                     exponent: divisor_exp as u8,
@@ -229,7 +231,7 @@ impl FrameCodec {
                 });
 
                 //entropy encode
-                for &sample in pcm[3..].iter() {
+                for &sample in pcm[num_samples_pre_written..].iter() {
                     let current = truncate_sample(sample);
 
                     parabola.f = [
@@ -301,7 +303,7 @@ impl FrameCodec {
         frame_info.next().map(|FrameHeader { exponent, size, .. }| {
             match self.state {
                 CodecState::Init => {
-                    let num_samples_pre_read = 3;
+                    let num_samples_pre_read = size.min(3);
                     //write starting samples into the stream
                     for _ in 0..num_samples_pre_read {
                         let samp = stream.read::<u16>() as i16;
@@ -314,7 +316,7 @@ impl FrameCodec {
                     }
                     let mut samples_read = num_samples_pre_read as usize;
                     //entropy decode
-                    for _ in 3..size {
+                    for _ in num_samples_pre_read..size {
                         let entropy = stream.read_compressed(exponent as i16);
                         parabola.f = [
                             normalize_sample(sample_history.prev(3)),
-- 
2.43.0


From 137a19fff1cc30b87784d5243c6ae8e59253299b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 16/23] fix: re-encoding shorter audio must not leave headers
 of the old audio behind

---
 src/codec/adhoc.rs             |  3 +++
 src/codec/adhoc/frame.rs       | 12 ++++++++++++
 src/collections/bitvec.rs      |  6 ++++++
 src/collections/nibble_list.rs | 11 +++++++++++
 4 files changed, 32 insertions(+)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 1a3afd1..9a14645 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -228,6 +228,9 @@ impl AdhocCodec {
         let deinterleaved_channel = &mut self.deinterleaved_channel;
         let seq = &mut self.seq;
 
+        //headers behind the cursor belong to audio that is about to be overwritten
+        block_info.truncate_to_cursor();
+
         deinterleaved_channel.resize(num_chunks, 0.0);
 
         //de-interleave pcm by channel
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index dd38d0b..44574d1 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -137,6 +137,18 @@ impl FrameHeaders {
         self.divisor_exp_list.len()
     }
 
+    /// drops every header at (and after) the cursor
+    pub fn truncate_to_cursor(&mut self) {
+        let len = self.header_cursor as usize;
+        if len < self.len() {
+            self.divisor_exp_list.truncate(len);
+            self.is_init_frame_list.truncate(len);
+            self.frame_size_list.truncate(len);
+            self.bit_cursor_list.truncate(len);
+            self.stack_history_list.truncate(len);
+        }
+    }
+
     pub fn reset(&mut self) {
         self.header_cursor = 0;
     }
diff --git a/src/collections/bitvec.rs b/src/collections/bitvec.rs
index e7a858f..ae31c19 100755
--- a/src/collections/bitvec.rs
+++ b/src/collections/bitvec.rs
@@ -21,6 +21,12 @@ impl BitVec {
         self.bit_cursor = 0;
     }
 
+    pub fn truncate(&mut self, len: usize) {
+        if len < self.len() {
+            self.bit_cursor = len as u128;
+        }
+    }
+
     /// # Description
     /// return number of bits written to vector
     pub fn len(&self) -> usize {
diff --git a/src/collections/nibble_list.rs b/src/collections/nibble_list.rs
index 6fbb91e..682de53 100755
--- a/src/collections/nibble_list.rs
+++ b/src/collections/nibble_list.rs
@@ -58,6 +58,17 @@ impl NibbleList {
         self.data[block_idx] |= val << 4 * (nibble_idx);
     }
 
+    pub fn truncate(&mut self, len: usize) {
+        if len < self.len() {
+            self.nibble_count = len as u32;
+            self.data.truncate((len + 1) / 2);
+            if len % 2 == 1 {
+                //push(..) expects unused nibbles to be 0
+                self.set(len, 0);
+            }
+        }
+    }
+
     pub fn clear(&mut self) {
         self.nibble_count = 0;
     }
-- 
2.43.0


From cb343939924a578ecaaffa0359eda97a3fcf34c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 17/23] fix: AdhocCodec::seek past the end of the stream must
 not panic

---
 src/codec/adhoc.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 9a14645..9f30597 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -361,7 +361,7 @@ impl Streamable for AdhocCodec {
         match dt {
             SeekFrom::Start(dt) => {
                 let offset = (frequency_in_millis * (dt as f32)) as u64;
-                let offset_in_blocks = offset * channels;
+                let offset_in_blocks = offset.saturating_mul(channels);
 
                 let mut samples_skipped = 0;
                 let mut header_block_index = 0;
@@ -387,9 +387,14 @@ impl Streamable for AdhocCodec {
 
                 //pinned down start header
                 let start_header_index = header_block_index * channels as usize;
-                let start_header = frame_header_list
-                    .get(start_header_index)
-                    .expect("start frame failed to fetch");
+                let start_header = match frame_header_list.get(start_header_index) {
+                    Some(header) => header,
+                    None => {
+                        //seeked past the last frame so there is nothing left to decode
+                        frame_header_list.set_cursor(start_header_index as u32);
+                        return;
+                    }
+                };
 
                 //make sure cursor in bitstream is set properly
                 stream.set_bit_cursor(start_header.bit_cursor as u128);
-- 
2.43.0


From c0347e2920eadd3263d6c38a72591c5edb765273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 18/23] fix: AdhocCodec::load must reject files with
 inconsistent headers

---
 src/codec/adhoc.rs             | 10 +++++++++-
 src/codec/adhoc/frame.rs       | 11 +++++++++++
 src/collections/bitvec.rs      |  5 +++++
 src/collections/nibble_list.rs |  5 +++++
 4 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 9f30597..3f69d74 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -194,8 +194,16 @@ impl AdhocCodec {
         bincode::deserialize_from::<_, SlimAdhocCodec>(res)
             .ok()
             .and_then(|slim| {
-                let scale = (1 << slim.compression_level) as f32;
                 let info = slim.stream.info()?;
+                let is_valid = slim.compression_level <= 10
+                    && info.channels >= 1
+                    && info.channels <= u16::MAX as u32
+                    && slim.frame_header_list.is_consistent()
+                    && slim.frame_header_list.len() % info.channels as usize == 0;
+                if !is_valid {
+                    return None;
+                }
+                let scale = (1 << slim.compression_level) as f32;
                 let mut adhoc_codec = Self {
                     compression_level: slim.compression_level,
                     channel_state_list: (0..info.channels)
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index 44574d1..a6ed97b 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -129,6 +129,17 @@ impl FrameHeaders {
         })
     }
 
+    /// all lists are expected to have exactly one element for every frame
+    pub fn is_consistent(&self) -> bool {
+        let len = self.len();
+        self.divisor_exp_list.is_consistent()
+            && self.is_init_frame_list.is_consistent()
+            && self.is_init_frame_list.len() == len
+            && self.frame_size_list.len() == len
+            && self.bit_cursor_list.len() == len
+            && self.stack_history_list.len() == len
+    }
+
     pub fn set_cursor(&mut self, idx: u32) {
         self.header_cursor = idx;
     }
diff --git a/src/collections/bitvec.rs b/src/collections/bitvec.rs
index ae31c19..9560fdc 100755
--- a/src/collections/bitvec.rs
+++ b/src/collections/bitvec.rs
@@ -21,6 +21,11 @@ impl BitVec {
         self.bit_cursor = 0;
     }
 
+    /// true when there is enough memory allocated for all bits
+    pub fn is_consistent(&self) -> bool {
+        self.bit_cursor <= self.capacity() as u128
+    }
+
     pub fn truncate(&mut self, len: usize) {
         if len < self.len() {
             self.bit_cursor = len as u128;
diff --git a/src/collections/nibble_list.rs b/src/collections/nibble_list.rs
index 682de53..4cb50c8 100755
--- a/src/collections/nibble_list.rs
+++ b/src/collections/nibble_list.rs
@@ -25,6 +25,11 @@ impl NibbleList {
 
     /// # Description
     /// returns total number of bits allocated in buffer
+    /// true when `data` is just big enough to store every nibble
+    pub fn is_consistent(&self) -> bool {
+        self.data.len() == (self.len() + 1) / 2
+    }
+
     pub fn capacity(&self) ->usize{
         self.data.capacity() * 8
     }
-- 
2.43.0


From 8d21b4d2a8704fb2e7aca349af3885c69e315d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 19/23] fix: filesize_upperbound must count length prefixes and
 the info tag

---
 src/codec/adhoc.rs       | 8 ++++++--
 src/codec/adhoc/frame.rs | 4 ++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 3f69d74..234ce57 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -105,11 +105,15 @@ impl AdhocCodec {
         */
         let audio_stream_header =         
             //number of bits AudioStream need to store info 
-            mem::size_of::<StreamInfo>() as u64 * 8; 
+            mem::size_of::<StreamInfo>() as u64 * 8 + 
+            //tag of the optional StreamInfo
+            8; 
 
         let bitstream = self.stream.capacity_upperbound() as u64+ 
           //streams internal cursor + capacity 
-          128*2 ;
+          128*2 +
+          //number of chunks in the stream
+          64;
 
 
         let audio_stream_bits = audio_stream_header + bitstream;
diff --git a/src/codec/adhoc/frame.rs b/src/codec/adhoc/frame.rs
index a6ed97b..f94e4b1 100755
--- a/src/codec/adhoc/frame.rs
+++ b/src/codec/adhoc/frame.rs
@@ -44,8 +44,8 @@ impl FrameHeaders {
         let len = self.len() as u64;
 
         //serde bincode needs to put length of vec before the elements get
-        //written out, this is my guess at the size(in bits) of the length value
-        let vector_header_size = 8;
+        //written out, this is the size(in bits) of the length value
+        let vector_header_size = 64;
 
         let divisor_weight_in_bits = self.divisor_exp_list.capacity() as u64 + vector_header_size;
 
-- 
2.43.0


From 5d0710fa02fb4a29815c57d82fa65a96127d31c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 20/23] fix: the cli must not ignore files it failed to convert

---
 src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 794666c..7cd8b20 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -87,7 +87,9 @@ pub fn cli() {
     input_files.par_iter().for_each(|file_path| {
         let input: &Path = file_path.as_ref();
         let output_dir: &Path = output_directory.as_ref();
-        convert_file(input, output_dir, compression_level);
+        if convert_file(input, output_dir, compression_level).is_none() {
+            eprintln!("failed to convert {}", input.display());
+        }
     });
 }
 
@@ -127,7 +129,7 @@ fn convert_wav_to_adhoc(input: &Path, output_dir: &Path, compression_level: u32)
     
     // println!("final dest = {:?}",file_dest);
 
-    compressed_wav.save_to(File::create(file_dest).ok()?);
+    compressed_wav.save_to(File::create(file_dest).ok()?)?;
 
     Some(())
 }
-- 
2.43.0


From cf9bcfcf91636fcc533c13461c22ca324652e6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 21/23] fix: the cli must not cut off file names at their last
 dot

---
 src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 7cd8b20..d2d890d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -125,7 +125,8 @@ fn convert_wav_to_adhoc(input: &Path, output_dir: &Path, compression_level: u32)
     file_dest.push(file_name);
 
     // println!("dest = {:?}",file_dest);
-    file_dest.set_extension("adhoc");
+    //set_extension(..) would replace everything after the last '.' in file_name
+    file_dest.as_mut_os_string().push(".adhoc");
     
     // println!("final dest = {:?}",file_dest);
 
@@ -148,7 +149,7 @@ fn convert_adhoc_to_wav(input: &Path, output_dir: &Path) -> Option<()> {
 
     let mut file_dest = PathBuf::from(output_dir);
     file_dest.push(file_name);
-    file_dest.set_extension("wav");
+    file_dest.as_mut_os_string().push(".wav");
 
     dst_wav.save_to(File::create(file_dest).ok()?).ok()?;
 
-- 
2.43.0


From 3918c9a14cc819e4a6cdca124a92dbc1815855c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 22/23] fix: the binary must build without the cli feature

---
 src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index d2d890d..0ba141f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -93,6 +93,7 @@ pub fn cli() {
     });
 }
 
+#[cfg(feature = "cli")]
 pub fn convert_file(input: &Path, output_dir: &Path, compression_level: u32) -> Option<()> {
     let input_ext = input.extension()?.to_str()?;
     if input_ext.contains("wav") {
@@ -104,6 +105,7 @@ pub fn convert_file(input: &Path, output_dir: &Path, compression_level: u32) ->
     Some(())
 }
 
+#[cfg(feature = "cli")]
 fn convert_wav_to_adhoc(input: &Path, output_dir: &Path, compression_level: u32) -> Option<()> {
     let file = File::open(input).ok()?;
     let file_name = input.file_stem()?;
@@ -134,6 +136,7 @@ fn convert_wav_to_adhoc(input: &Path, output_dir: &Path, compression_level: u32)
 
     Some(())
 }
+#[cfg(feature = "cli")]
 fn convert_adhoc_to_wav(input: &Path, output_dir: &Path) -> Option<()> {
     let file = File::open(input).ok()?;
     let file_name = input.file_stem()?;
-- 
2.43.0


From 291fa7fdf8222c8b11700fa33d881314b29e0e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 23/23] fix: seeking into a short first frame must not preload
 the predictor history

---
 src/codec/adhoc.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/codec/adhoc.rs b/src/codec/adhoc.rs
index 234ce57..b3e1cbe 100755
--- a/src/codec/adhoc.rs
+++ b/src/codec/adhoc.rs
@@ -423,10 +423,13 @@ impl Streamable for AdhocCodec {
 
                     //make sure stack history from the header is transferred to state
                     // 0..3 because sample history is supposed to have 3 samples
+                    // (the first frame of a stream starts without any history)
                     for k in 0..3 {
-                        channel_state_list[offset]
-                            .sample_history_mut()
-                            .push(header.stack_history[k]);
+                        if !header.is_init {
+                            channel_state_list[offset]
+                                .sample_history_mut()
+                                .push(header.stack_history[k]);
+                        }
                     }
 
                     //make sure buffers are clear
-- 
2.43.0

