From 3f96d731ac3a4a4fb7e2fbc9c2df9d97bc8ce636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 01/20] fix: keep the delay line inside a shorter or empty
 replacement buffer

---
 src/delay_line.rs          | 19 +++++++++----------
 src/memory/memory_slice.rs | 13 +++++++++----
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/delay_line.rs b/src/delay_line.rs
index a29b9a4..5e536a8 100644
--- a/src/delay_line.rs
+++ b/src/delay_line.rs
@@ -18,6 +18,10 @@ impl DelayLine {
     #[inline(always)]
     pub fn change_buffer(&mut self, new_slice: MemorySlice<Mutable>) {
         self.buffer = new_slice;
+
+        if self.index >= self.buffer.len() {
+            self.index = 0;
+        }
     }
 
     #[inline(always)]
@@ -26,7 +30,7 @@ impl DelayLine {
     }
 
     pub fn read(&self) -> f32 {
-        unsafe { self.buffer.get_unchecked(self.index) }
+        self.buffer.get(self.index).unwrap_or(0.0)
     }
 
     pub fn read_wrapped_at(&self, offset: isize) -> f32 {
@@ -42,19 +46,14 @@ impl DelayLine {
     }
 
     pub fn write_and_advance(&mut self, value: f32) {
-        unsafe {
-            self.buffer.assign_unchecked(self.index, value);
-        }
+        // nothing to write to as long as no buffer is assigned
+        let _ = self.buffer.assign(self.index, value);
 
-        if self.index == self.buffer.len() - 1 {
-            self.index = 0;
-        } else {
-            self.index += 1;
-        }
+        self.advance();
     }
 
     pub fn advance(&mut self) {
-        if self.index == self.buffer.len() - 1 {
+        if self.index + 1 >= self.buffer.len() {
             self.index = 0;
         } else {
             self.index += 1;
diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 1f23b5c..b606457 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -158,6 +158,10 @@ where
 
     #[inline(always)]
     pub fn get_wrapped(&self, index: isize) -> f32 {
+        if self.length == 0 {
+            return 0.0;
+        }
+
         if index >= self.length as isize || index < 0 {
             return unsafe { self.get_wrapped_unchecked(index) };
         }
@@ -166,6 +170,10 @@ where
     }
 
     pub fn get_slice_of_four_wrapped(&self, index: isize) -> [f32; 4] {
+        if self.length == 0 {
+            return [0.0; 4];
+        }
+
         if index + 3 >= self.length as isize || index < 0 {
             unsafe {
                 [
@@ -241,10 +249,7 @@ where
         let upper_bound = (window_size / 2) as isize;
 
         for i in lower_bound..=upper_bound {
-            unsafe {
-                let wrapped_index = self.get_wrapped_unchecked(int_index + i);
-                slice[(i + lower_bound.neg()) as usize] = wrapped_index;
-            }
+            slice[(i + lower_bound.neg()) as usize] = self.get_wrapped(int_index + i);
         }
 
         lagrange(&slice[..window_size], index - int_index as f32)
-- 
2.43.0


From 1f9987e3138e157bc0d628ce6e2bcaff3f20bdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 02/20] fix: wrap the wavetable around instead of reading past
 its end

---
 src/oscillator/osc_wavetable.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/oscillator/osc_wavetable.rs b/src/oscillator/osc_wavetable.rs
index e0614e5..06daabd 100644
--- a/src/oscillator/osc_wavetable.rs
+++ b/src/oscillator/osc_wavetable.rs
@@ -21,10 +21,8 @@ impl<PA: PhaseAccumulator> WavetableOscillator<PA> {
         let phase = self.acc.next_value_normalized();
 
         // get interpolated sample
-        unsafe {
-            self.lookup_table
-                .lerp_unchecked(self.lookup_table.len() as f32 * phase)
-        }
+        self.lookup_table
+            .lerp_wrapped(self.lookup_table.len() as f32 * phase)
     }
 
     #[inline(always)]
-- 
2.43.0


From 16617a2515d31bea04248eb396102e9de80bf7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 03/20] fix: keep the normalized phase below 1.0

---
 src/oscillator/phase_accumulator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oscillator/phase_accumulator.rs b/src/oscillator/phase_accumulator.rs
index 3e3f456..ecd65b3 100644
--- a/src/oscillator/phase_accumulator.rs
+++ b/src/oscillator/phase_accumulator.rs
@@ -46,7 +46,10 @@ impl PhaseAccumulator for SoftPhaseAccumulator {
     #[inline(always)]
     fn next_value_normalized(&mut self) -> f32 {
         self.tick();
-        self.counter.wrapping_add(self.shift) as f32 / (u32::MAX as f32 + 1.0)
+        let normalized = self.counter.wrapping_add(self.shift) as f32 / (u32::MAX as f32 + 1.0);
+
+        // counters next to the wrap-around would be rounded up to a full turn
+        normalized.min(1.0 - f32::EPSILON / 2.0)
     }
 }
 
-- 
2.43.0


From e05c62facf62c4a21067c02ee07a183d6fba888a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 04/20] fix: let the checked frequency setter change the
 accumulator it is called on

---
 src/oscillator/phase_accumulator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oscillator/phase_accumulator.rs b/src/oscillator/phase_accumulator.rs
index ecd65b3..c09d15a 100644
--- a/src/oscillator/phase_accumulator.rs
+++ b/src/oscillator/phase_accumulator.rs
@@ -75,7 +75,7 @@ impl SoftPhaseAccumulator {
             .wrapping_add((self.freq * self.min_step) as u32);
     }
 
-    pub fn set_freq(mut self, freq: f32) -> Result<(), FrequencyError> {
+    pub fn set_freq(&mut self, freq: f32) -> Result<(), FrequencyError> {
         if freq == 0.0 {
             return Err(Zero);
         }
-- 
2.43.0


From 97776383d5622555f0649bab83844dfad3fca60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 05/20] fix: clamp the envelope's stage time so that zero
 length stages stay finite

---
 src/envelope.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 8fe88ab..923b6cd 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -136,7 +136,7 @@ impl AudioRateADSR {
     // =================
 
     fn next_attack(&mut self) -> f32 {
-        self.t += self.attack;
+        self.t = (self.t + self.attack).min(1.0);
         self.envelope_value = self.t.powf(1.0 / self.slope);
 
         if self.envelope_value >= 1.0 {
@@ -149,7 +149,7 @@ impl AudioRateADSR {
     }
 
     fn next_decay(&mut self) -> f32 {
-        self.t += self.decay;
+        self.t = (self.t + self.decay).min(1.0);
         self.envelope_value =
             ((1.0 - self.t.powf(self.slope)) * (1.0 - self.sustain)) + self.sustain;
 
@@ -162,7 +162,7 @@ impl AudioRateADSR {
     }
 
     fn next_release(&mut self) -> f32 {
-        self.t += self.release;
+        self.t = (self.t + self.release).min(1.0);
         self.envelope_value = (1.0 - self.t.powf(self.slope)) * self.release_val;
 
         // reach idle at ca. -140dB
-- 
2.43.0


From ae8cb713ea51f9c9e1a9bedd1bf55ea1fc3b7c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 06/20] fix: release the envelope from the sustain level
 actually output

---
 src/envelope.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 923b6cd..6472680 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -96,7 +96,10 @@ impl AudioRateADSR {
     pub fn tick(&mut self) -> f32 {
         match self.state {
             Idle => 0.0,
-            Sustain => self.sustain,
+            Sustain => {
+                self.envelope_value = self.sustain;
+                self.envelope_value
+            }
             Attack => self.next_attack(),
             Decay => self.next_decay(),
             Release => self.next_release(),
-- 
2.43.0


From 5fff46a4b131a5b56305ef8ada12aa1a6a0ff370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 07/20] fix: retrigger the envelope from its current level

---
 src/envelope.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index 6472680..a511228 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -28,6 +28,7 @@ pub struct AudioRateADSR {
     state: EnvelopeState,
 
     envelope_value: f32,
+    attack_val: f32,
     release_val: f32,
 
     sr: f32,
@@ -52,6 +53,7 @@ impl AudioRateADSR {
             slope,
             t: 0.0,
             state: Idle,
+            attack_val: 0.0,
             release_val: 0.0,
             envelope_value: 0.0,
         }
@@ -115,11 +117,16 @@ impl AudioRateADSR {
         match self.state {
             Idle | Attack => {
                 self.state = Attack;
+                self.attack_val = 0.0;
                 self.t = 0.0;
             }
 
-            // Retrigger
-            Decay | Sustain | Release => self.state = Attack,
+            // Retrigger from the current level
+            Decay | Sustain | Release => {
+                self.state = Attack;
+                self.attack_val = self.envelope_value;
+                self.t = 0.0;
+            }
         }
     }
 
@@ -140,7 +147,8 @@ impl AudioRateADSR {
 
     fn next_attack(&mut self) -> f32 {
         self.t = (self.t + self.attack).min(1.0);
-        self.envelope_value = self.t.powf(1.0 / self.slope);
+        self.envelope_value =
+            self.attack_val + (1.0 - self.attack_val) * self.t.powf(1.0 / self.slope);
 
         if self.envelope_value >= 1.0 {
             self.state = Decay;
-- 
2.43.0


From 88422c10f9a7ae259908c5a065aa5ef9be9c5569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 08/20] fix: limit the envelope slope in the constructor like
 the setter does

---
 src/envelope.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/envelope.rs b/src/envelope.rs
index a511228..a8958b6 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -50,7 +50,7 @@ impl AudioRateADSR {
             release: set_time_parameter(release_in_secs, sr),
 
             sr,
-            slope,
+            slope: slope.clamp(1.0 / BIGGEST_SLOPE, BIGGEST_SLOPE),
             t: 0.0,
             state: Idle,
             attack_val: 0.0,
-- 
2.43.0


From a0d6542972007c190a2f8e7c38b9ee28c8c800a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 09/20] fix: keep the envelope's stage times when the sample
 rate changes

---
 src/envelope.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/envelope.rs b/src/envelope.rs
index a8958b6..e668587 100644
--- a/src/envelope.rs
+++ b/src/envelope.rs
@@ -84,6 +84,12 @@ impl AudioRateADSR {
     }
 
     pub fn set_sr(&mut self, sr: f32) {
+        // keep the stage times
+        let ratio = self.sr / sr;
+        self.attack *= ratio;
+        self.decay *= ratio;
+        self.release *= ratio;
+
         self.sr = sr;
     }
 
-- 
2.43.0


From c0cc1554a1e67d24b8a56e51b2122af1e146f89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 10/20] fix: evaluate the windowed lagrange interpolation at
 the centre of its window

---
 src/memory/memory_slice.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index b606457..0a51841 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -241,9 +241,7 @@ where
         let int_index = index.floor() as isize;
         let mut slice: [f32; 100] = [0.0_f32; 100];
 
-        if window_size > 100 {
-            window_size = 100;
-        }
+        window_size = window_size.clamp(2, 100);
 
         let lower_bound = ((window_size / 2) as isize).neg() + 1;
         let upper_bound = (window_size / 2) as isize;
@@ -252,7 +250,11 @@ where
             slice[(i + lower_bound.neg()) as usize] = self.get_wrapped(int_index + i);
         }
 
-        lagrange(&slice[..window_size], index - int_index as f32)
+        // the window starts at `lower_bound`, not at the position in question
+        let points = (upper_bound - lower_bound + 1) as usize;
+        let position = index - int_index as f32 - lower_bound as f32;
+
+        lagrange(&slice[..points], position)
     }
 
     pub fn lagrange_four_points_wrapped(&self, index: f32) -> f32 {
-- 
2.43.0


From 38984555baee543881202059800716137bd3bbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 11/20] fix: evaluate the four point lagrange interpolation
 relative to its window

---
 src/memory/memory_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 0a51841..6b3035b 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -261,7 +261,7 @@ where
         unsafe {
             lagrange_only_4_elements(
                 &self.get_slice_of_four_wrapped(index.floor() as isize)[..],
-                index,
+                index - index.floor(),
             )
         }
     }
-- 
2.43.0


From c429bd6417059d32210a43209a0aa92f646a030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 12/20] fix: accept sub slices up to the end of a memory slice

---
 src/memory/memory_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 6b3035b..68dcc7e 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -120,7 +120,7 @@ where
             return Err(IndexOutOfBound);
         }
 
-        if offset + sub_length >= self.length {
+        if sub_length > self.length - offset {
             return Err(LengthOutOfBound);
         }
 
-- 
2.43.0


From aace1faaaf5b11c3f36acf1200077726ec53efcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 13/20] fix: do not overflow the wrapped index of four elements

---
 src/memory/memory_slice.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 68dcc7e..23236c0 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -174,7 +174,9 @@ where
             return [0.0; 4];
         }
 
-        if index + 3 >= self.length as isize || index < 0 {
+        let index = index.rem_euclid(self.length as isize);
+
+        if index + 3 >= self.length as isize {
             unsafe {
                 [
                     self.get_wrapped_unchecked(index + 0),
-- 
2.43.0


From c21e89009704e6158d0657d832fb7473f61952e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 14/20] fix: reject empty slices and NaN in the checked linear
 interpolation

---
 src/memory/memory_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 23236c0..5f32292 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -210,7 +210,7 @@ where
     }
 
     pub fn lerp(&self, index: f32) -> Result<f32, MemSliceError> {
-        if index < 0.0 {
+        if self.length == 0 || !(index >= 0.0) {
             return Err(IndexOutOfBound);
         }
 
-- 
2.43.0


From cdc724683467c97ed2cc8968da9c5cfc4e61c2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 15/20] fix: accept the last element of long slices in the
 checked linear interpolation

---
 src/memory/memory_slice.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 5f32292..a66b222 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -214,9 +214,7 @@ where
             return Err(IndexOutOfBound);
         }
 
-        if index == (self.length - 1) as f32
-            && index < self.length as f32 - 1.0 + 10.0 * f32::EPSILON
-        {
+        if index == (self.length - 1) as f32 {
             return Ok(unsafe { self.get_unchecked(index as usize) });
         }
 
-- 
2.43.0


From eb80fc22e73a619bec8080f82399759063f2213e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 16/20] fix: do not panic on an interpolated tap whose offset
 is no usable number

---
 src/memory/memory_slice.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index a66b222..4d486f5 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -252,7 +252,12 @@ where
 
         // the window starts at `lower_bound`, not at the position in question
         let points = (upper_bound - lower_bound + 1) as usize;
-        let position = index - int_index as f32 - lower_bound as f32;
+        let mut fraction = index - int_index as f32;
+        if !(0.0..=1.0).contains(&fraction) {
+            // not a number, or too large to have a fractional part
+            fraction = 0.0;
+        }
+        let position = fraction - lower_bound as f32;
 
         lagrange(&slice[..points], position)
     }
-- 
2.43.0


From fb7bbbd328d9cb9f6856597d264fb6a666272393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 17/20] fix: do not overflow a delay line tap at the end of the
 offset range

---
 src/delay_line.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/delay_line.rs b/src/delay_line.rs
index 5e536a8..34a81df 100644
--- a/src/delay_line.rs
+++ b/src/delay_line.rs
@@ -34,7 +34,13 @@ impl DelayLine {
     }
 
     pub fn read_wrapped_at(&self, offset: isize) -> f32 {
-        self.buffer.get_wrapped(self.index as isize + offset)
+        let position = match (self.index as isize).checked_add(offset) {
+            Some(position) => position,
+            // reduced by whole turns, the offset cannot overflow any more
+            None => self.index as isize + offset % self.buffer.len() as isize,
+        };
+
+        self.buffer.get_wrapped(position)
     }
 
     pub fn read_lerp_wrapped_at(&self, offset: f32) -> f32 {
-- 
2.43.0


From 01bf3ef0e1bfbb7ba03ad71df7efe4e4cc9d8d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:31 +0000
Subject: [PATCH 18/20] fix: keep the lookup of the band-limited rectangle
 inside its table

---
 src/float/math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/float/math.rs b/src/float/math.rs
index 9b6eb56..341ceb2 100644
--- a/src/float/math.rs
+++ b/src/float/math.rs
@@ -165,7 +165,7 @@ impl AdditionalF32Ext for f32 {
 
         if *self <= 0.25 {
             let f_index = self * 4.0;
-            return unsafe { buffer.lerp_unchecked(f_index * len as f32) };
+            return buffer.lerp_wrapped(f_index * len as f32);
         }
 
         if *self <= 0.5 {
@@ -175,7 +175,7 @@ impl AdditionalF32Ext for f32 {
 
         if *self <= 0.75 {
             let f_index = (self - 0.5) * 4.0;
-            return unsafe { -1.0 * buffer.lerp_unchecked(f_index * len as f32) };
+            return -1.0 * buffer.lerp_wrapped(f_index * len as f32);
         }
 
         if *self < 1.0 {
-- 
2.43.0


From 3c32c6c1a7081ec202978ccfd72aba59be6cdcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:45 +0000
Subject: [PATCH 19/20] fix: keep the fraction of an interpolated tap on long
 delay lines

---
 src/delay_line.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/delay_line.rs b/src/delay_line.rs
index 34a81df..51e4eef 100644
--- a/src/delay_line.rs
+++ b/src/delay_line.rs
@@ -1,8 +1,12 @@
 // Inspired by Ian Hobsen's ["irh <ian.r.hobson@gmail.com>"] freeverb for Rust
 // https://github.com/irh/freeverb-rs/blob/b877287cfaced4c2872f126b0f0e595abb87dbd0/src/freeverb/src/delay_line.rs
 
+use crate::float::{lagrange, lerp_unchecked};
 use crate::memory::{memory_slice::MemorySlice, Mutable};
 
+#[allow(unused_imports)]
+use micromath::F32Ext;
+
 #[repr(C)]
 #[derive(Clone, Copy)]
 pub struct DelayLine {
@@ -44,11 +48,26 @@ impl DelayLine {
     }
 
     pub fn read_lerp_wrapped_at(&self, offset: f32) -> f32 {
-        self.buffer.lerp_wrapped(self.index as f32 + offset)
+        // only whole samples are added to the head, in a floating point sum of
+        // both the fraction would be rounded away on long lines
+        let whole = offset.floor();
+        let a = self.read_wrapped_at(whole as isize);
+        let b = self.read_wrapped_at((whole as isize).saturating_add(1));
+
+        lerp_unchecked(a, b, offset - whole)
     }
 
     pub fn read_lagrange_wrapped_at(&self, offset: f32) -> f32 {
-        self.buffer.lagrange_wrapped(self.index as f32 + offset, 5)
+        let whole = offset.floor();
+        let at = |distance| self.read_wrapped_at((whole as isize).saturating_add(distance));
+
+        let mut fraction = offset - whole;
+        if !(0.0..=1.0).contains(&fraction) {
+            // not a number, or too large to have a fractional part
+            fraction = 0.0;
+        }
+
+        lagrange(&[at(-1), at(0), at(1), at(2)], fraction + 1.0)
     }
 
     pub fn write_and_advance(&mut self, value: f32) {
-- 
2.43.0


From 770ee0cc0fab7e4f728d07de9c2a387b5703c311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:29 +0000
Subject: [PATCH 20/20] fix: do not overflow the far interpolated taps of a
 slice on 32-bit targets

---
 src/memory/memory_slice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memory/memory_slice.rs b/src/memory/memory_slice.rs
index 4d486f5..0e435de 100644
--- a/src/memory/memory_slice.rs
+++ b/src/memory/memory_slice.rs
@@ -228,7 +228,7 @@ where
     pub fn lerp_wrapped(&self, index: f32) -> f32 {
         let int_index = index.floor() as isize;
         let a = self.get_wrapped(int_index);
-        let b = self.get_wrapped(int_index + 1);
+        let b = self.get_wrapped(int_index.saturating_add(1));
 
         lerp_unchecked(a, b, index - (int_index as f32))
     }
@@ -247,7 +247,7 @@ where
         let upper_bound = (window_size / 2) as isize;
 
         for i in lower_bound..=upper_bound {
-            slice[(i + lower_bound.neg()) as usize] = self.get_wrapped(int_index + i);
+            slice[(i + lower_bound.neg()) as usize] = self.get_wrapped(int_index.saturating_add(i));
         }
 
         // the window starts at `lower_bound`, not at the position in question
-- 
2.43.0

