From d93c2eb7335fed49ba947666721a8408cede62bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 01/14] fix: a worker waiting on the command queue wakes up
 when the stream has failed

A multithreaded decompressor freed (or failed) on the main thread left its
worker blocked on the condition variable for ever while holding the codec
lock, so divans_free_decompressor never returned on a truncated stream.
---
 src/multithreading.rs        | 16 ++++++++++------
 src/parallel_decompressor.rs |  7 ++++---
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/multithreading.rs b/src/multithreading.rs
index 85a9b62..a2214e1 100755
--- a/src/multithreading.rs
+++ b/src/multithreading.rs
@@ -133,6 +133,10 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> MultiWorker<A
         thread_debug!(_thread_event_type, output.len(), self, _elapsed);
         return ret;        
     }
+    // true once either side has given up on the stream: nobody will service this queue any more
+    pub fn has_failed(&self) -> bool {
+        self.queue.0.lock().unwrap().err.is_some()
+    }
     pub fn free(&mut self, m8: &mut RepurposingAlloc<u8, AllocU8>, mcommand: &mut AllocCommand) {
         let &(ref lock, ref cvar) = &*self.queue;
         let mut worker = lock.lock().unwrap();
@@ -162,7 +166,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> MainToThread<
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
             let mut worker = lock.lock().unwrap();
-            if worker.cm_space_ready() {
+            if worker.cm_space_ready() || worker.err.is_some() {
                 thread_debug!(ThreadEventType::M_PUSH_CONTEXT_MAP, 1, self, _elapsed);
                 if worker.waiters != 0 {
                     cvar.notify_one();
@@ -243,7 +247,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
             let mut worker = lock.lock().unwrap();
-            if worker.data_ready() {
+            if worker.data_ready() || worker.err.is_some() {
                 let ret = worker.pull_data();
                 thread_debug!(ThreadEventType::W_PULL_DATA, match ret {ThreadData::Data(ref d) => d.len(), ThreadData::Yield => 0, ThreadData::Eof=> 99999999,}, self, _elapsed);
                 return ret;
@@ -262,7 +266,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
             let mut worker = lock.lock().unwrap();
-            if worker.cm_ready() {
+            if worker.cm_ready() || worker.err.is_some() {
                 if worker.waiters != 0 {
                     cvar.notify_one();
                 }
@@ -290,7 +294,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
             let mut worker = lock.lock().unwrap();
-            if worker.result_space_ready() {
+            if worker.result_space_ready() || worker.err.is_some() {
                 thread_debug!(ThreadEventType::W_PUSH_CMD, 1, self, _elapsed);
                 if worker.waiters != 0 {
                     cvar.notify_one();
@@ -314,7 +318,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
             let mut worker = lock.lock().unwrap();
-            if worker.result_space_ready() {
+            if worker.result_space_ready() || worker.err.is_some() {
                 if worker.waiters != 0 {
                     cvar.notify_one();
                 }
@@ -335,7 +339,7 @@ impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> ThreadToMain<
             let _elapsed = unguarded_debug_time!(self);
             let &(ref lock, ref cvar) = &*self.queue;
             let mut worker = lock.lock().unwrap();
-            if worker.result_space_ready() {
+            if worker.result_space_ready() || worker.err.is_some() {
                 if worker.waiters != 0 {
                     cvar.notify_one();
                 }
diff --git a/src/parallel_decompressor.rs b/src/parallel_decompressor.rs
index cc89219..e7277d6 100755
--- a/src/parallel_decompressor.rs
+++ b/src/parallel_decompressor.rs
@@ -121,10 +121,11 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
                             process_codec.demuxer().broadcast_err(e); // HANDLE FAILURE BY TELLING MAIN THREAD
                             return;
                         },
-                        DivansResult::NeedsMoreInput => {
-                            //eprintln!("W_RETRY_PULL");//unimplemented!(); // we should block here--- maybe this is an error
+                        DivansResult::NeedsMoreInput | DivansResult::NeedsMoreOutput => {
+                            if process_codec.demuxer().worker.worker.has_failed() {
+                                return; // the main thread has abandoned this stream
+                            }
                         },
-                        DivansResult::NeedsMoreOutput => {}, // lets make room for more output
                     }
                 }
             } else {
-- 
2.43.0


From d94d000f618373acbd387cba1a5766449dcc0886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 02/14] fix: a dictionary reference outside the word list is an
 error, not a panic

A hostile stream could name a word id past the words of its length, and the
slice of the static dictionary then panicked in the decoder.
---
 src/cmd_to_raw/mod.rs | 8 +++++++-
 src/interface.rs      | 1 +
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cmd_to_raw/mod.rs b/src/cmd_to_raw/mod.rs
index 52b03cb..8564eaf 100644
--- a/src/cmd_to_raw/mod.rs
+++ b/src/cmd_to_raw/mod.rs
@@ -17,7 +17,7 @@ use core;
 pub use interface::{DivansResult, DivansOutputResult, ErrMsg};
 pub use alloc::{AllocatedStackMemory, Allocator, SliceWrapper, SliceWrapperMut, StackAllocator};
 use brotli::dictionary::{kBrotliMaxDictionaryWordLength, kBrotliDictionary,
-                                      kBrotliDictionaryOffsetsByLength};
+                                      kBrotliDictionaryOffsetsByLength, kBrotliDictionarySizeBitsByLength};
 use brotli::TransformDictionaryWord;
 pub use super::interface::{Command, Compressor, LiteralCommand, CopyCommand, DictCommand, FeatureFlagSliceType};
 mod test;
@@ -284,6 +284,12 @@ impl<RingBuffer: SliceWrapperMut<u8> + SliceWrapper<u8>> DivansRecodeState<RingB
     fn parse_dictionary(&mut self, dict_cmd:&DictCommand) -> DivansOutputResult {
         // dictionary words are bounded in size: make sure there's enough room for the whole word
         let copy_len = u32::from(dict_cmd.word_size);
+        if copy_len > u32::from(kBrotliMaxDictionaryWordLength) {
+            return DivansOutputResult::Failure(ErrMsg::DictWordSizeTooLarge(dict_cmd.word_size));
+        }
+        if dict_cmd.word_id >> kBrotliDictionarySizeBitsByLength[copy_len as usize] != 0 {
+            return DivansOutputResult::Failure(ErrMsg::DictWordIdOutOfBounds(dict_cmd.word_size));
+        }
         let word_len_category_index = kBrotliDictionaryOffsetsByLength[copy_len as usize] as u32;
         let word_index = (dict_cmd.word_id * copy_len) + word_len_category_index;
         let dict = &kBrotliDictionary;
diff --git a/src/interface.rs b/src/interface.rs
index 09f354c..e53d66c 100644
--- a/src/interface.rs
+++ b/src/interface.rs
@@ -61,6 +61,7 @@ pub enum ErrMsg {
     MainFunctionCalledFromThread(u8),
     DecodingDecoderAlreadyFreed,
     AdvContextMapNotBoolean(u8),
+    DictWordIdOutOfBounds(u8),
 }
 
 
-- 
2.43.0


From 534f58a3ee4eb3c3229e4951a6b312be68232b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 03/14] fix: a copy length over 32 bits or a copy distance of 0
 is an error, not a panic

Both can be named by a hostile stream: the first overflowed the shift that
rebuilds the length, the second divided by zero when the copy was replayed.
---
 src/codec/copy.rs | 6 ++++++
 src/interface.rs  | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/codec/copy.rs b/src/codec/copy.rs
index ebe5d2f..d99452b 100644
--- a/src/codec/copy.rs
+++ b/src/codec/copy.rs
@@ -132,6 +132,9 @@ impl CopyState {
                     if superstate.specialization.adapt_cdf() {
                         nibble_prob.blend(last_nib, Speed::FAST);
                     }
+                    if last_nib + 19 > 32 {
+                        return DivansResult::Failure(ErrMsg::CopyLengthTooLarge(last_nib + 19));
+                    }
                     superstate.bk.last_clen = last_nib + 19;
                     self.state = CopySubstate::CountMantissaNibbles(0, round_up_mod_4(last_nib + 18), 1 << (last_nib + 18));
                 },
@@ -211,6 +214,9 @@ impl CopyState {
                         self.state = CopySubstate::DistanceLengthGreater14Less25;
                     } else if beg_nib == 15 {
                         self.cc.distance = superstate.bk.distance_lru[1].wrapping_sub(3);
+                        if self.cc.distance == 0 {
+                            return DivansResult::Failure(ErrMsg::Distance0NotAllowed);
+                        }
                         superstate.bk.last_dlen = (core::mem::size_of_val(&self.cc.distance) as u32 * 8
                                                    - self.cc.distance.leading_zeros()) as u8;
                         self.state = CopySubstate::FullyDecoded;
diff --git a/src/interface.rs b/src/interface.rs
index e53d66c..4087d50 100644
--- a/src/interface.rs
+++ b/src/interface.rs
@@ -62,6 +62,7 @@ pub enum ErrMsg {
     DecodingDecoderAlreadyFreed,
     AdvContextMapNotBoolean(u8),
     DictWordIdOutOfBounds(u8),
+    CopyLengthTooLarge(u8),
 }
 
 
-- 
2.43.0


From 7589f9a9201ccb228e6d10ef3616cb1328fe0c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:01 +0000
Subject: [PATCH 04/14] fix: DivansDecompressorReader stops at the end of the
 stream

Bytes after the end of the stream, or a read into an empty buffer, sent the
reader into an endless loop.
---
 src/reader.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index a1149e1..4a7f17c 100755
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -44,6 +44,9 @@ struct GenReader<R: Read,
 
 impl<R:Read, P:Processor, BufferType:SliceWrapperMut<u8>> Read for GenReader<R,P,BufferType> {
 	fn read(&mut self, buf: &mut [u8]) -> Result<usize, io::Error> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
         let mut output_offset : usize = 0;
         let mut avail_out = buf.len() - output_offset;
         let mut avail_in = self.input_len - self.input_offset;
@@ -81,6 +84,7 @@ impl<R:Read, P:Processor, BufferType:SliceWrapperMut<u8>> Read for GenReader<R,P
                    buf.split_at_mut(output_offset + avail_out).0,
                    &mut output_offset)
            };
+           let made_progress = self.input_offset != old_input_offset || output_offset != old_output_offset;
            avail_in -= self.input_offset - old_input_offset;
            avail_out -= output_offset - old_output_offset;
            if avail_in == 0 {
@@ -97,8 +101,8 @@ impl<R:Read, P:Processor, BufferType:SliceWrapperMut<u8>> Read for GenReader<R,P
                    return Err(io::Error::new(io::ErrorKind::InvalidData, m));
                },
              DivansResult::Success => {
-               if self.input_eof && avail_in == 0 && self.has_flushed {
-                 break;
+               if self.has_flushed && ((self.input_eof && avail_in == 0) || !made_progress) {
+                 break; // any input left over is beyond the end of the stream
                }
              },
              DivansResult::NeedsMoreInput | DivansResult::NeedsMoreOutput => {},
-- 
2.43.0


From ac3fbe8e1eb1babadc3b1f544fa67e4336a57e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 05/14] fix: an adaptation speed over the supported maximum is
 an error, not a panic

A hostile stream could name a speed above 0x4000, which the Speed
constructors only reject by assertion.
---
 src/codec/context_map.rs | 7 +++++++
 src/interface.rs         | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/codec/context_map.rs b/src/codec/context_map.rs
index c92f3e3..ae6ac85 100644
--- a/src/codec/context_map.rs
+++ b/src/codec/context_map.rs
@@ -21,6 +21,8 @@ use ::interface::{
 use ::priors::PriorCollection;
 use ::probability::{Speed, CDF16, SpeedPalette};
 
+// the f8 form of 0x4000, the fastest adaptation a CDF supports
+const MAX_SPEED_F8: u8 = 0x78;
 
 
 pub struct PredictionModeState<AllocU8:Allocator<u8>> {
@@ -251,6 +253,11 @@ impl <AllocU8:Allocator<u8>> PredictionModeState<AllocU8> {
                        out_adapt_speed[speed_index].1 |= nibble;
                    }
                    if index as usize + 1 == 4 * out_adapt_speed.len(){
+                       for speed in out_adapt_speed.iter() {
+                           if speed.0 > MAX_SPEED_F8 || speed.1 > MAX_SPEED_F8 {
+                               return DivansResult::Failure(ErrMsg::AdaptationSpeedTooLarge(speed.0, speed.1));
+                           }
+                       }
                        self.pm.set_stride_context_speed([(u8_to_speed(out_adapt_speed[0].0),u8_to_speed(out_adapt_speed[0].1)),
                                                          (u8_to_speed(out_adapt_speed[1].0),u8_to_speed(out_adapt_speed[1].1))]);
                        self.pm.set_context_map_speed([(u8_to_speed(out_adapt_speed[2].0),u8_to_speed(out_adapt_speed[2].1)),
diff --git a/src/interface.rs b/src/interface.rs
index 4087d50..f4634ad 100644
--- a/src/interface.rs
+++ b/src/interface.rs
@@ -63,6 +63,7 @@ pub enum ErrMsg {
     AdvContextMapNotBoolean(u8),
     DictWordIdOutOfBounds(u8),
     CopyLengthTooLarge(u8),
+    AdaptationSpeedTooLarge(u8, u8),
 }
 
 
-- 
2.43.0


From 11ddaeeaf5fc06c344a6941c816d5ba3529083c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 06/14] fix: an error of the IR optimizer is reported by the
 encode call that hit it

internal_encode_stream returned NeedsMoreInput before it looked at the error
its metablock callback had recorded, so the metablock vanished silently.
---
 src/brotli_ir_gen.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/brotli_ir_gen.rs b/src/brotli_ir_gen.rs
index 13fe93c..61ec865 100644
--- a/src/brotli_ir_gen.rs
+++ b/src/brotli_ir_gen.rs
@@ -190,14 +190,14 @@ impl<SelectedCDF:CDF16,
                     }
                 }
                 self.brotli_data.commit_next_buffer(brotli_out_offset);
+                if let Err(e) = cb_err {
+                    return DivansResult::Failure(e);
+                }
                 if available_out != 0 && available_in == 0 && BrotliEncoderIsFinished(&mut self.brotli_encoder) == 0 {
                     return DivansResult::NeedsMoreInput;
                 }
             }
         }
-        if let Err(e) = cb_err {
-            return DivansResult::Failure(e);
-        }
         if is_end && BrotliEncoderIsFinished(&mut self.brotli_encoder) == 0 {
             return DivansResult::NeedsMoreOutput;
         }
-- 
2.43.0


From caec3564722599fc76d963491d8d0522ff7bc4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 07/14] fix: ir_optimize gives the codec its allocators back
 when it fails

An early return left the codec without its main thread context, and the next
use of it, freeing the compressor included, panicked.
---
 src/ir_optimize/mod.rs | 122 ++++++++++++++++++++++++-----------------
 1 file changed, 71 insertions(+), 51 deletions(-)

diff --git a/src/ir_optimize/mod.rs b/src/ir_optimize/mod.rs
index 405148b..e666df1 100644
--- a/src/ir_optimize/mod.rs
+++ b/src/ir_optimize/mod.rs
@@ -109,57 +109,22 @@ pub fn should_merge<SelectedCDF:CDF16,
               copy_index, full_cost, copy.distance, copy.num_bytes, code, future_hit, cur_cost, combined_cost);*/
     Ok(combined_cost < cur_cost)
 }
-pub fn ir_optimize<'a, SelectedCDF:CDF16,
-                   ChosenEncoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8>,
-                   AllocU8:Allocator<u8>,
-                   AllocCDF16:Allocator<SelectedCDF>,
-                   AllocCommand: Allocator<StaticCommand>
-                   >(pm:&mut brotli::interface::PredictionModeContextMap<brotli::InputReferenceMut>,
-                     orig_buf:&'a mut [brotli::interface::Command<brotli::SliceOffset>],
-                     mb:brotli::InputPair,
-                     codec:&mut codec::DivansCodec<ChosenEncoder,
-                                                   EncoderSpecialization,
-                                                   DemuxerAndRingBuffer<AllocU8,
-                                                                        DevNull<AllocU8>>,
-                                                   Mux<AllocU8>,
-                                                   SelectedCDF,
-                                                   AllocU8,
-                                                   AllocCDF16>,
-                     window_size: u8,
-                     opt: super::interface::DivansCompressorOptions,
-                     _mc: &'a mut AllocCommand,
-                     _buf: &'a mut AllocCommand::AllocatedMemory,
-) -> Result<&'a [brotli::interface::Command<brotli::SliceOffset>], ErrMsg> {
+fn merge_profitable_copies<SelectedCDF:CDF16,
+                           AllocU8:Allocator<u8>,
+                           AllocCDF16:Allocator<SelectedCDF>>(
+    pm:&mut brotli::interface::PredictionModeContextMap<brotli::InputReferenceMut>,
+    orig_buf:&mut [brotli::interface::Command<brotli::SliceOffset>],
+    mb:brotli::InputPair,
+    actuary:&mut codec::DivansCodec<TallyingArithmeticEncoder,
+                                    ToggleProbabilityBlend,
+                                    DemuxerAndRingBuffer<AllocU8, DevNull<AllocU8>>,
+                                    DevNull<AllocU8>,
+                                    SelectedCDF,
+                                    AllocU8,
+                                    AllocCDF16>,
+    distance_cache: &mut cache::Cache<AllocU8>) -> Result<usize, ErrMsg> {
     let mut unused = 0usize;
     let mut unused2 = 0usize;
-    if orig_buf.len() == 0 {
-        return Ok(orig_buf);
-    }
-    let (re_m8, mcdf16, remainder) = match core::mem::replace(&mut codec.cross_command_state.thread_ctx, codec::ThreadContext::Worker) {
-        codec::ThreadContext::MainThread(main) => main.dismantle(),
-        codec::ThreadContext::Worker => panic!("Main Thread was none during encode"),
-    };
-    let (mut m8, reallocation_item) = re_m8.disassemble();
-    let mut distance_cache = cache::Cache::<AllocU8>::new(&codec.cross_command_state.bk.distance_lru, orig_buf.len(), &mut m8);
-    let mut actuary = codec::DivansCodec::<TallyingArithmeticEncoder,
-                                           ToggleProbabilityBlend,
-                                           DemuxerAndRingBuffer<AllocU8, DevNull<AllocU8>>,
-                                           DevNull<AllocU8>,
-                                           SelectedCDF,
-                                           AllocU8,
-                                           AllocCDF16>::new(m8,
-                                                            mcdf16,
-                                                            TallyingArithmeticEncoder::default(),
-                                                            TallyingArithmeticEncoder::default(),
-                                                            ToggleProbabilityBlend::default(),
-                                                            DemuxerAndRingBuffer::<AllocU8, DevNull<AllocU8>>::default(),
-                                                            usize::from(window_size),
-                                                            opt.dynamic_context_mixing.unwrap_or(0),
-                                                            opt.prior_depth,
-                                                            opt.literal_adaptation,
-                                                            opt.use_context_map,
-                                                            opt.force_stride_value,
-                                                            false);
     {
         let immutable_pm = Command::PredictionMode(PredictionModeContextMap::<brotli::InputReference>{
             literal_context_map:brotli::InputReference::from(&pm.literal_context_map),
@@ -195,7 +160,7 @@ pub fn ir_optimize<'a, SelectedCDF:CDF16,
             if let Command::Copy(ref mut copy) = item_a[0] {
                 let start = lit.data.offset();
                 let fin = start + lit.data.len() + copy.num_bytes as usize;
-                let mut should_merge = match should_merge(lit, copy, index, mb, &mut actuary, &mut distance_cache) {
+                let mut should_merge = match should_merge(lit, copy, index, mb, actuary, distance_cache) {
                     Ok(should) => should,
                     Err(msg) => return Err(msg),
                 };
@@ -272,6 +237,58 @@ pub fn ir_optimize<'a, SelectedCDF:CDF16,
         orig_buf[eligible_index] = cmd;
         eligible_index += 1;
     }
+    Ok(eligible_index)
+}
+pub fn ir_optimize<'a, SelectedCDF:CDF16,
+                   ChosenEncoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8>,
+                   AllocU8:Allocator<u8>,
+                   AllocCDF16:Allocator<SelectedCDF>,
+                   AllocCommand: Allocator<StaticCommand>
+                   >(pm:&mut brotli::interface::PredictionModeContextMap<brotli::InputReferenceMut>,
+                     orig_buf:&'a mut [brotli::interface::Command<brotli::SliceOffset>],
+                     mb:brotli::InputPair,
+                     codec:&mut codec::DivansCodec<ChosenEncoder,
+                                                   EncoderSpecialization,
+                                                   DemuxerAndRingBuffer<AllocU8,
+                                                                        DevNull<AllocU8>>,
+                                                   Mux<AllocU8>,
+                                                   SelectedCDF,
+                                                   AllocU8,
+                                                   AllocCDF16>,
+                     window_size: u8,
+                     opt: super::interface::DivansCompressorOptions,
+                     _mc: &'a mut AllocCommand,
+                     _buf: &'a mut AllocCommand::AllocatedMemory,
+) -> Result<&'a [brotli::interface::Command<brotli::SliceOffset>], ErrMsg> {
+    if orig_buf.len() == 0 {
+        return Ok(orig_buf);
+    }
+    let (re_m8, mcdf16, remainder) = match core::mem::replace(&mut codec.cross_command_state.thread_ctx, codec::ThreadContext::Worker) {
+        codec::ThreadContext::MainThread(main) => main.dismantle(),
+        codec::ThreadContext::Worker => panic!("Main Thread was none during encode"),
+    };
+    let (mut m8, reallocation_item) = re_m8.disassemble();
+    let mut distance_cache = cache::Cache::<AllocU8>::new(&codec.cross_command_state.bk.distance_lru, orig_buf.len(), &mut m8);
+    let mut actuary = codec::DivansCodec::<TallyingArithmeticEncoder,
+                                           ToggleProbabilityBlend,
+                                           DemuxerAndRingBuffer<AllocU8, DevNull<AllocU8>>,
+                                           DevNull<AllocU8>,
+                                           SelectedCDF,
+                                           AllocU8,
+                                           AllocCDF16>::new(m8,
+                                                            mcdf16,
+                                                            TallyingArithmeticEncoder::default(),
+                                                            TallyingArithmeticEncoder::default(),
+                                                            ToggleProbabilityBlend::default(),
+                                                            DemuxerAndRingBuffer::<AllocU8, DevNull<AllocU8>>::default(),
+                                                            usize::from(window_size),
+                                                            opt.dynamic_context_mixing.unwrap_or(0),
+                                                            opt.prior_depth,
+                                                            opt.literal_adaptation,
+                                                            opt.use_context_map,
+                                                            opt.force_stride_value,
+                                                            false);
+    let num_commands = merge_profitable_copies(pm, orig_buf, mb, &mut actuary, &mut distance_cache);
     //eprintln!("Actuary estimate: total cost {} bits; {} bytes\n", total_billing_cost(&actuary), total_billing_cost(&actuary)/ 8.0);
     let (mut retrieved_m8, retrieved_mcdf16) = actuary.free();
     distance_cache.free(&mut retrieved_m8);
@@ -282,5 +299,8 @@ pub fn ir_optimize<'a, SelectedCDF:CDF16,
                                    ChosenEncoder>::reassemble((alloc_util::RepurposingAlloc::reassemble((retrieved_m8, reallocation_item)),
                                                                retrieved_mcdf16,
                                                                remainder)));
-    Ok(&orig_buf[..eligible_index])
+    match num_commands {
+        Ok(count) => Ok(&orig_buf[..count]),
+        Err(e) => Err(e),
+    }
 }
-- 
2.43.0


From a09daac298e3ccd8db830955be8843a4169fc30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:29 +0000
Subject: [PATCH 08/14] fix: the C header declares the third parameter of
 divans_new_decompressor_with_custom_alloc

C callers passed two arguments to a three argument function, which then read
whether to start a thread from a garbage register. The header also lacked
the IR optimizer option.
---
 c/divans/ffi.h | 3 ++-
 c/example.c    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/divans/ffi.h b/c/divans/ffi.h
index 8e603b1..3fc3337 100644
--- a/c/divans/ffi.h
+++ b/c/divans/ffi.h
@@ -31,6 +31,7 @@ typedef uint8_t DivansOptionSelect;
 #define DIVANS_OPTION_PRIOR_BITMASK_DETECTION 17
 #define DIVANS_OPTION_Q9_5 18
 #define DIVANS_OPTION_FORCE_LITERAL_CONTEXT_MODE 19
+#define DIVANS_OPTION_IR_OPTIMIZER 20
 
 
 /// a struct specifying custom allocators for divans to use instead of the builtin rust allocators.
@@ -58,7 +59,7 @@ void divans_free_compressor(struct DivansCompressorState* mfd);
 
 
 struct DivansDecompressorState* divans_new_decompressor();
-struct DivansDecompressorState* divans_new_decompressor_with_custom_alloc(struct CAllocator alloc, uint8_t skip_crc);
+struct DivansDecompressorState* divans_new_decompressor_with_custom_alloc(struct CAllocator alloc, uint8_t skip_crc, uint8_t multithread);
 DivansResult divans_decode(struct DivansDecompressorState* state,
                            const uint8_t *input_buf_ptr, size_t input_size, size_t*input_offset,
                            uint8_t *output_buf_ptr, size_t output_size, size_t *output_offset);
diff --git a/c/example.c b/c/example.c
index 4c223e7..edfa4cc 100644
--- a/c/example.c
+++ b/c/example.c
@@ -59,7 +59,7 @@ DivansResult compress(const unsigned char *data, size_t len, struct VecU8 *ret_b
 DivansResult decompress(const unsigned char *data, size_t len, struct VecU8 *ret_buffer) {
     unsigned char buf[BUF_SIZE];
     struct CAllocator alloc = {custom_malloc, custom_free, custom_alloc_opaque};
-    struct DivansDecompressorState *state = divans_new_decompressor_with_custom_alloc(alloc, 0);
+    struct DivansDecompressorState *state = divans_new_decompressor_with_custom_alloc(alloc, 0, 0);
     DivansResult res;
     do {
         size_t read_offset = 0;
-- 
2.43.0


From 90e05c52589c3b6d5a6e1200980e92a6ad2f5173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 09/14] fix: the C API accepts NULL for an empty buffer

Building a slice from the NULL pointer aborted debug builds and is undefined
behaviour in the others.
---
 src/ffi/mod.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/ffi/mod.rs b/src/ffi/mod.rs
index af84f97..a1481b6 100755
--- a/src/ffi/mod.rs
+++ b/src/ffi/mod.rs
@@ -54,6 +54,23 @@ pub unsafe extern fn divans_new_compressor_with_custom_alloc(allocators:CAllocat
 
 
 
+// a C caller may describe an empty buffer with a NULL pointer, which a Rust slice may not hold
+unsafe fn slice_or_empty<'a>(data: *const u8, size: usize) -> &'a [u8] {
+    if data.is_null() || size == 0 {
+        &[]
+    } else {
+        slice::from_raw_parts(data, size)
+    }
+}
+
+unsafe fn slice_or_empty_mut<'a>(data: *mut u8, size: usize) -> &'a mut [u8] {
+    if data.is_null() || size == 0 {
+        &mut []
+    } else {
+        slice::from_raw_parts_mut(data, size)
+    }
+}
+
 #[no_mangle]
 pub unsafe extern fn divans_set_option(state_ptr: *mut DivansCompressorState,
                                        selector: DivansOptionSelect,
@@ -70,8 +87,8 @@ pub unsafe extern fn divans_set_option(state_ptr: *mut DivansCompressorState,
 pub unsafe extern fn divans_encode(state_ptr: *mut DivansCompressorState,
                                    input_buf_ptr: *const u8, input_size: usize, input_offset_ptr: *mut usize,
                                    output_buf_ptr: *mut u8, output_size: usize, output_offset_ptr: *mut usize) -> DivansReturnCode {
-    let input_buf = slice::from_raw_parts(input_buf_ptr, input_size);
-    let output_buf = slice::from_raw_parts_mut(output_buf_ptr, output_size);
+    let input_buf = slice_or_empty(input_buf_ptr, input_size);
+    let output_buf = slice_or_empty_mut(output_buf_ptr, output_size);
     match input_offset_ptr.as_mut() {
         None => return DIVANS_FAILURE,
         Some(input_offset) => {
@@ -93,7 +110,7 @@ pub unsafe extern fn divans_encode(state_ptr: *mut DivansCompressorState,
 #[no_mangle]
 pub unsafe extern fn divans_encode_flush(state_ptr: *mut DivansCompressorState,
                                          output_buf_ptr: *mut u8, output_size: usize, output_offset_ptr: *mut usize) -> DivansReturnCode {
-    let output_buf = slice::from_raw_parts_mut(output_buf_ptr, output_size);
+    let output_buf = slice_or_empty_mut(output_buf_ptr, output_size);
     match output_offset_ptr.as_mut() {
         None => return DIVANS_FAILURE,
         Some(output_offset) => {
@@ -236,8 +253,8 @@ pub unsafe extern fn divans_new_decompressor_with_custom_alloc(allocators:CAlloc
 pub unsafe extern fn divans_decode(state_ptr: *mut DivansDecompressorState,
                                    input_buf_ptr: *const u8, input_size: usize, input_offset_ptr: *mut usize,
                                    output_buf_ptr: *mut u8, output_size: usize, output_offset_ptr: *mut usize) -> DivansReturnCode {
-    let input_buf = slice::from_raw_parts(input_buf_ptr, input_size);
-    let output_buf = slice::from_raw_parts_mut(output_buf_ptr, output_size);
+    let input_buf = slice_or_empty(input_buf_ptr, input_size);
+    let output_buf = slice_or_empty_mut(output_buf_ptr, output_size);
     match input_offset_ptr.as_mut() {
         None => return DIVANS_FAILURE,
         Some(input_offset) => {
-- 
2.43.0


From 5ea574179aea2f66daa58b5054ca48e36a3437df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 10/14] fix: a custom allocator that returns NULL makes the
 constructors return NULL

They wrote the new state through the NULL pointer instead.
---
 src/ffi/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ffi/mod.rs b/src/ffi/mod.rs
index a1481b6..759e48e 100755
--- a/src/ffi/mod.rs
+++ b/src/ffi/mod.rs
@@ -43,6 +43,9 @@ pub unsafe extern fn divans_new_compressor_with_custom_alloc(allocators:CAllocat
     };
     if let Some(alloc_fn) = allocators.alloc_func {
         let ptr = alloc_fn(allocators.opaque, core::mem::size_of::<DivansCompressorState>());
+        if ptr.is_null() {
+            return core::ptr::null_mut();
+        }
         let divans_compressor_state_ptr = core::mem::transmute::<*mut c_void, *mut DivansCompressorState>(ptr);
         core::ptr::write(divans_compressor_state_ptr, to_box);
         divans_compressor_state_ptr
@@ -240,6 +243,9 @@ pub unsafe extern fn divans_new_decompressor_with_custom_alloc(allocators:CAlloc
     };
     if let Some(alloc_fn) = allocators.alloc_func {
         let ptr = alloc_fn(allocators.opaque, core::mem::size_of::<DivansDecompressorState>());
+        if ptr.is_null() {
+            return core::ptr::null_mut();
+        }
         let divans_decompressor_state_ptr = core::mem::transmute::<*mut c_void, *mut DivansDecompressorState>(ptr);
         core::ptr::write(divans_decompressor_state_ptr, to_box);
         divans_decompressor_state_ptr
-- 
2.43.0


From f9af4fae9a6fe7460bccf428619a9779e382d5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:29 +0000
Subject: [PATCH 11/14] fix: the divans command reports a failed write of its
 last buffered output

---
 src/bin/divans.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bin/divans.rs b/src/bin/divans.rs
index cf2f306..e3359fd 100644
--- a/src/bin/divans.rs
+++ b/src/bin/divans.rs
@@ -604,7 +604,7 @@ fn recode_inner<Reader:std::io::BufRead,
         }
     }
 
-    Ok(())
+    w.flush()
 }
 
 fn allowed_command(_cmd: &Command<ItemVec<u8>>, _last_literal_switch: &mut divans::LiteralBlockSwitch) -> bool {
@@ -705,7 +705,7 @@ fn compress_inner<Reader:std::io::BufRead,
             }
         }
     }
-    Ok(())
+    w.flush()
 }
 fn compress_raw_inner<Compressor: divans::interface::Compressor,
                       Reader:std::io::Read,
@@ -823,7 +823,7 @@ fn compress_raw_inner<Compressor: divans::interface::Compressor,
     let mut m8 = free_state(compress_state);
     m8.free_cell(ibuffer);
     m8.free_cell(obuffer);
-    Ok(())
+    w.flush()
 }
 
 
@@ -1102,7 +1102,7 @@ fn decompress_generic<Reader:std::io::Read,
             }
         }
     }
-    Ok(())
+    w.flush()
 }
 
 fn recode<Reader:std::io::BufRead,
-- 
2.43.0


From f5283132b85bcd729d13cc9d42001bd6f6468e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:28 +0000
Subject: [PATCH 12/14] fix: dropping a multithreaded decompressor before the
 end of its stream ends its worker thread

---
 src/parallel_decompressor.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/parallel_decompressor.rs b/src/parallel_decompressor.rs
index e7277d6..1794c8f 100755
--- a/src/parallel_decompressor.rs
+++ b/src/parallel_decompressor.rs
@@ -18,6 +18,17 @@ use ::alloc::{Allocator};
 use std::thread;
 use super::divans_decompressor::StaticCommand;
 
+// The main thread's end of the queue: a stream that is dropped before its end takes its worker thread along.
+struct WorkerHandle<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>>(MultiWorker<AllocU8, AllocCommand>);
+
+impl<AllocU8:Allocator<u8>, AllocCommand:Allocator<StaticCommand>> Drop for WorkerHandle<AllocU8, AllocCommand> {
+    fn drop(&mut self) {
+        if !thread::panicking() {
+            self.0.broadcast_err(ErrMsg::UnexpectedEof);
+        }
+    }
+}
+
 pub struct ParallelDivansProcess<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8>,
                                  AllocU8:Allocator<u8>,
                                  AllocCDF16:Allocator<interface::DefaultCDF16>,
@@ -30,7 +41,7 @@ pub struct ParallelDivansProcess<DefaultDecoder: ArithmeticEncoderOrDecoder + Ne
                                          AllocU8,
                                          AllocCDF16>>>,
                >,
-    worker: MultiWorker<AllocU8, AllocCommand>,
+    worker: WorkerHandle<AllocU8, AllocCommand>,
     literal_decoder: Option<DivansDecoderCodec<interface::DefaultCDF16,
                                                AllocU8,
                                                AllocCDF16,
@@ -137,11 +148,11 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
             codec:worker_codec,
             literal_decoder:Some(main_thread_codec),
             bytes_encoded:0,
-            worker: multi_worker,
+            worker: WorkerHandle(multi_worker),
         }
     }
     pub fn free_ref(&mut self) {
-        self.worker.broadcast_err(ErrMsg::UnexpectedEof); // in case we still have a worker holding the lock, not done
+        self.worker.0.broadcast_err(ErrMsg::UnexpectedEof); // in case we still have a worker holding the lock, not done
         if let Some(ref mut codec) = *self.codec.lock().unwrap() {
             let lit_decoder = core::mem::replace(&mut self.literal_decoder, None);
             if let Some(ld) = lit_decoder {
@@ -154,7 +165,7 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
     }
     pub fn free(mut self) -> (AllocU8, AllocCDF16, AllocCommand) {
         use codec::NUM_ARITHMETIC_CODERS;
-        self.worker.broadcast_err(ErrMsg::UnexpectedEof); // in case we still have a worker holding the lock, not done
+        self.worker.0.broadcast_err(ErrMsg::UnexpectedEof); // in case we still have a worker holding the lock, not done
         if let Some(mut codec) = core::mem::replace(&mut *self.codec.lock().unwrap(), None) {
             let lit_decoder = core::mem::replace(&mut self.literal_decoder, None);
             if let Some(ld) = lit_decoder {
@@ -178,7 +189,7 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
         let old_output_offset = *output_offset;
         if let Some(literal_decoder) =  self.literal_decoder.as_mut() {
             loop {
-                match literal_decoder.decode_process_input(&mut self.worker,
+                match literal_decoder.decode_process_input(&mut self.worker.0,
                                                            input,
                                                            input_offset) {
                     DivansInputResult::Success => {},
@@ -189,7 +200,7 @@ impl<DefaultDecoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8> + in
                 }
             }
             let retval = literal_decoder.decode_process_output(
-                &mut self.worker,
+                &mut self.worker.0,
                 output,
                 output_offset);
             self.bytes_encoded += *output_offset - old_output_offset;
-- 
2.43.0


From 9d602f2094a2771f2da87659809b4daafeb235be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:50 +0000
Subject: [PATCH 13/14] fix: raw command assembler must not wrap its ring
 buffer before the end is reached

---
 src/raw_to_cmd/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raw_to_cmd/mod.rs b/src/raw_to_cmd/mod.rs
index d01ac94..a09eed5 100644
--- a/src/raw_to_cmd/mod.rs
+++ b/src/raw_to_cmd/mod.rs
@@ -66,7 +66,7 @@ impl<RingBuffer: SliceWrapperMut<u8> + SliceWrapper<u8>, AllocU32:Allocator<u32>
             self.ring_buffer.slice_mut()[(self.ring_buffer_decode_index as usize)..(self.ring_buffer_decode_index as usize + max_copy)].clone_from_slice(&input[*input_offset..(*input_offset + max_copy)]);
             *input_offset += max_copy;
             self.ring_buffer_decode_index += max_copy as u32;
-            if self.ring_buffer_output_index != 0 {
+            if self.ring_buffer_output_index != 0 && self.ring_buffer_decode_index as usize == self.ring_buffer.slice().len() {
                self.ring_buffer_decode_index = 0;
             }
         }
-- 
2.43.0


From bbf2ad7322a655fe21a8594681ebed72ab1f41fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:14 +0000
Subject: [PATCH 14/14] fix: refuse data offered to a compressor after its
 stream was shut down

---
 src/codec/mod.rs         | 19 ++++++++++++++++++-
 src/divans_compressor.rs |  3 +++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/codec/mod.rs b/src/codec/mod.rs
index 00fd7fb..e6a6147 100755
--- a/src/codec/mod.rs
+++ b/src/codec/mod.rs
@@ -402,6 +402,18 @@ impl<AllocU8: Allocator<u8>,
     pub fn specialization(&mut self) -> &mut Specialization{
         &mut self.cross_command_state.specialization
     }
+    // true once flush has begun to shut the stream down: no command may follow
+    pub fn is_shut_down(&self) -> bool {
+        match self.state {
+            EncodeOrDecodeState::EncodedShutdownNode
+                | EncodeOrDecodeState::ShutdownCoder(_)
+                | EncodeOrDecodeState::CoderBufferDrain
+                | EncodeOrDecodeState::MuxDrain
+                | EncodeOrDecodeState::WriteChecksum(_)
+                | EncodeOrDecodeState::DivansSuccess => true,
+            _ => false,
+        }
+    }
     #[inline(always)]
     pub fn get_crc(&mut self) -> &mut SubDigest {
         &mut self.crc
@@ -947,7 +959,9 @@ impl<AllocU8: Allocator<u8>,
                     return CodecTraitResult::Res(OneCommandReturn::BufferExhausted(DivansResult::Failure(ErrMsg::NotAllowedToEncodeAfterFlush)));
                 },
                 EncodeOrDecodeState::WriteChecksum(count) => {
-                    assert!(Specialization::IS_DECODING_FILE);
+                    if !Specialization::IS_DECODING_FILE {
+                        return CodecTraitResult::Res(OneCommandReturn::BufferExhausted(DivansResult::Failure(ErrMsg::NotAllowedToEncodeAfterFlush)));
+                    }
                     match self.cross_command_state.thread_ctx {
                         // only main thread can checksum
                         ThreadContext::MainThread(ref mut main_thread_ctx) => {
@@ -1017,6 +1031,9 @@ impl<AllocU8: Allocator<u8>,
                     }
                 },
                 EncodeOrDecodeState::DivansSuccess => {
+                    if !Specialization::IS_DECODING_FILE && !is_end {
+                        return CodecTraitResult::Res(OneCommandReturn::BufferExhausted(DivansResult::Failure(ErrMsg::NotAllowedToEncodeAfterFlush)));
+                    }
                     return CodecTraitResult::Res(OneCommandReturn::BufferExhausted(DivansResult::Success));
                 },
             }
diff --git a/src/divans_compressor.rs b/src/divans_compressor.rs
index 34a8dd4..4d266ac 100644
--- a/src/divans_compressor.rs
+++ b/src/divans_compressor.rs
@@ -278,6 +278,9 @@ impl<DefaultEncoder: ArithmeticEncoderOrDecoder + NewWithAllocator<AllocU8>,
               input_offset: &mut usize,
               output: &mut [u8],
               output_offset: &mut usize) -> DivansResult {
+        if self.codec.is_shut_down() && *input_offset != input.len() {
+            return DivansResult::Failure(ErrMsg::NotAllowedToEncodeAfterFlush);
+        }
         if self.header_progress != interface::HEADER_LENGTH {
             match write_header(&mut self.header_progress, self.window_size, output, output_offset,
                                self.codec.get_crc()) {
-- 
2.43.0

