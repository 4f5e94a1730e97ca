From 5301c8be1621dc928b6a25927e13edd3da99f589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:48 +0000
Subject: [PATCH 01/25] fix: step_in runs its step with the MCR set, as run
 does

---
 src/sim.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sim.rs b/src/sim.rs
index 11157e4..9c636e1 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -1445,8 +1445,16 @@ impl Simulator {
     }
     /// Simulate one step, executing one instruction.
     pub fn step_in(&mut self) -> Result<(), SimErr> {
+        use std::sync::atomic::Ordering;
+
         self.observer.clear();
-        match self.step() {
+        // The machine is running during this step (as it is in `run_while`),
+        // so a program reading the MCR has to see it as set.
+        let was_running = self.mcr.swap(true, Ordering::Relaxed);
+        let result = self.step();
+        self.mcr.fetch_and(was_running, Ordering::Relaxed);
+
+        match result {
             Ok(()) => Ok(()),
             Err(StepBreak::Halt) => Ok(()),
             Err(StepBreak::Err(e)) => Err(e)
-- 
2.43.0


From bab3e01a2d68d435ad933f62836e52b8355b32c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:26 +0000
Subject: [PATCH 02/25] fix: do not mistake device interrupts with vectors
 x00-x02 for virtual exceptions

---
 src/sim.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sim.rs b/src/sim.rs
index 9c636e1..8e6ef6d 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -1120,7 +1120,9 @@ impl Simulator {
         // Virtual traps.
         // See the flag for documentation.
         // Virtual HALT
-        if !self.flags.use_real_traps {
+        // (Only traps and exceptions are virtual. A device interrupt always goes through its vector,
+        // even if that vector is the same as an exception's.)
+        if priority.is_none() && !self.flags.use_real_traps {
             if let Ok(intv) = RealIntVect::try_from(vect) {
                 if !self.prefetch {
                     // decrement PC so that if play is pressed again, it goes back here
-- 
2.43.0


From 5ef1242785d447f7f4e93ed1a9f2496812fae9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:03 +0000
Subject: [PATCH 03/25] fix: prefetch_pc wraps around instead of overflowing at
 PC x0000

---
 src/sim.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sim.rs b/src/sim.rs
index 8e6ef6d..2653fdd 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -1037,7 +1037,7 @@ impl Simulator {
     /// This function is useful as it returns the location of the currently
     /// executing instruction in memory.
     pub fn prefetch_pc(&self) -> u16 {
-        self.pc - (!self.prefetch) as u16
+        self.pc.wrapping_sub((!self.prefetch) as u16)
     }
 
     /// Checks whether the address points to a memory location that was allocated
-- 
2.43.0


From 123cfbab28fedc719e41dcac34428f517778337e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:53 +0000
Subject: [PATCH 04/25] fix: reject JMP encodings with a non-zero bit 11

---
 src/ast/sim.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/sim.rs b/src/ast/sim.rs
index 02db76f..3ec64da 100644
--- a/src/ast/sim.rs
+++ b/src/ast/sim.rs
@@ -330,7 +330,7 @@ impl SimInstr {
                 Ok(Self::STI(sr, off))
             },
             OP_JMP => {
-                word.slice(9..11).assert_equals(0b00)?;
+                word.slice(9..12).assert_equals(0b000)?;
                 let reg = word.slice(6..9).interpret();
                 word.slice(0..6).assert_equals(0b000_000)?;
                 Ok(Self::JMP(reg))
-- 
2.43.0


From 024bcade1d8b6d0f48da6c79391184a968b0e58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 05/25] fix: strict mode peeks at the next PC without
 performing the access

---
 src/sim.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sim.rs b/src/sim.rs
index 2653fdd..30b4876 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -1018,8 +1018,10 @@ impl Simulator {
     fn set_pc(&mut self, addr_word: Word, st_check_mem: bool) -> Result<(), SimErr> {
         let addr = addr_word.get_if_init(self.flags.strict, SimErr::StrictJmpAddrUninit)?;
         if self.flags.strict && st_check_mem {
-            // Check next memory value is initialized:
-            if !self.read_mem(addr, self.default_mem_ctx())?.is_init() {
+            // Check next memory value is initialized.
+            // This only peeks (the access is made by the next fetch), so it must not
+            // trigger IO, access violations, or the access observer.
+            if !self.mem[addr].is_init() {
                 return Err(SimErr::StrictPCNextUninit);
             }
         }
-- 
2.43.0


From c665a8b162be17ed6ec9930dfe95e03962c2ab38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:34 +0000
Subject: [PATCH 06/25] fix: record a write in the observer only once it has
 happened

A store that strict mode rejects left the target marked as written and
modified, although its contents had not changed.
---
 src/sim.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sim.rs b/src/sim.rs
index 30b4876..7e61b4d 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -876,16 +876,17 @@ impl Simulator {
 
         // Duplicate write in mem array:
         if success {
+            let modified = self.mem[addr] != data;
+            self.mem[addr]
+                .set_if_init(data, ctx.strict, SimErr::StrictMemSetUninit)?;
+
             if ctx.track_access {
                 // Update memory observer:
                 self.observer.update_mem_accesses(addr, AccessSet::WRITTEN);
-                if self.mem[addr] != data {
+                if modified {
                     self.observer.update_mem_accesses(addr, AccessSet::MODIFIED);
                 }
             }
-
-            self.mem[addr]
-                .set_if_init(data, ctx.strict, SimErr::StrictMemSetUninit)?;
         }
 
         Ok(())
-- 
2.43.0


From 3e83635bb7234476befa9307034d214d7a64fc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:34 +0000
Subject: [PATCH 07/25] fix: let a timer whose range includes 0 fire on a drawn
 interval of 0

A drawn 0 was ignored and drawn again at the next poll, so the gap between
interrupts could exceed the range, and an exact count of 0 never fired.
---
 src/sim/device/timer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sim/device/timer.rs b/src/sim/device/timer.rs
index c103c2d..ded3ade 100644
--- a/src/sim/device/timer.rs
+++ b/src/sim/device/timer.rs
@@ -158,7 +158,11 @@ impl ExternalDevice for TimerDevice {
         match self.time {
             0 => {
                 self.reset_remaining();
-                None
+                match self.time {
+                    // No polls are to be skipped before the next interrupt.
+                    0 => Some(super::Interrupt::vectored(self.vect, self.priority)),
+                    _ => None
+                }
             },
             1 => {
                 self.time = 0;
-- 
2.43.0


From 1db1b905ab847715bcac19b3227c0b8bc094a751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 08/25] fix: record .fill references to labels declared
 .external further down

Only a .external that came before its uses was noticed, so a later one left
the words silently unresolved, even after linking.
---
 src/asm.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 9fe11f2..0ca07f1 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -660,12 +660,12 @@ impl SymbolTable {
                 }
                 StmtKind::Directive(Directive::Fill(PCOffset::Label(label))) => {
                     let label_text = label.name.to_uppercase();
-                    if let Some(SymbolData { external: true, .. }) = label_map.get(&label_text) {
-                        let Some(cur) = cursor.as_ref() else {
+                    match cursor.as_ref() {
+                        // Whether the label is external may only be known later.
+                        Some(cur) => { rel_map.insert(cur.lc, label_text); },
+                        None => if let Some(SymbolData { external: true, .. }) = label_map.get(&label_text) {
                             return Err(AsmErr::new(AsmErrKind::UndetAddrStmt, stmt.span.clone()));
-                        };
-
-                        rel_map.insert(cur.lc, label_text);
+                        },
                     }
                 },
                 _ => {}
@@ -694,6 +694,9 @@ impl SymbolTable {
         if let Some(cur) = cursor {
             return Err(AsmErr::new(AsmErrKind::UnclosedOrig, cur.block_orig));
         }
+
+        // Only the references to external labels need to be relocated.
+        rel_map.retain(|_, label| label_map.get(label).is_some_and(|sym| sym.external));
         
         let debug_symbols = debug_sym.map(|(lines, src_info)| DebugSymbols {
             line_map: LineSymbolMap::new(lines)
-- 
2.43.0


From 331666ba6a4d663404b079e7eadbc4da75638048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:39 +0000
Subject: [PATCH 09/25] fix: neither lose nor repeat a byte when a device
 buffer is locked mid-transfer

The readiness check and the data access take the buffer lock separately. If
another thread held it in between, KBDR delivered the previous byte again and
DDR dropped the byte. The keyboard now delivers the byte it announced and
removes it once it can, and the display keeps the byte until it can write it.
---
 src/sim/device/display.rs  | 43 +++++++++++++++++++------------
 src/sim/device/keyboard.rs | 53 ++++++++++++++++++++++++++++----------
 2 files changed, 65 insertions(+), 31 deletions(-)

diff --git a/src/sim/device/display.rs b/src/sim/device/display.rs
index 3723615..3b54aae 100644
--- a/src/sim/device/display.rs
+++ b/src/sim/device/display.rs
@@ -5,10 +5,12 @@ use super::{DevWrapper, ExternalDevice, Interrupt, DDR, DSR};
 /// Scaffolding required to implement [`ExternalDevice`] for display devices.
 trait DisplayDevice: Send + Sync + 'static {
     /// Whether the display is ready to take output.
-    fn ready(&self) -> bool;
+    fn ready(&mut self) -> bool;
     /// Sends output, returns whether the output was successfully accepted.
     fn send_output(&mut self, byte: u8) -> bool;
 
+    /// Passes on any output which was accepted but could not be written yet.
+    fn flush_output(&mut self);
     /// Clears all of the current output.
     fn clear_output(&mut self);
 }
@@ -32,6 +34,7 @@ impl<D: DisplayDevice> ExternalDevice for DevWrapper<D, dyn DisplayDevice> {
     }
 
     fn poll_interrupt(&mut self) -> Option<Interrupt> {
+        self.flush_output();
         None
     }
 }
@@ -39,12 +42,14 @@ impl<D: DisplayDevice> ExternalDevice for DevWrapper<D, dyn DisplayDevice> {
 /// A display that delegates its output to a buffer.
 #[derive(Default, Clone)]
 pub struct BufferedDisplay {
-    buffer: Arc<RwLock<Vec<u8>>>
+    buffer: Arc<RwLock<Vec<u8>>>,
+    /// Output accepted while the buffer was locked.
+    pending: Vec<u8>
 }
 impl BufferedDisplay {
     /// Creates a new display, wrapping it around a given buffer.
     pub fn new(buffer: Arc<RwLock<Vec<u8>>>) -> Self {
-        Self { buffer }
+        Self { buffer, pending: vec![] }
     }
 
     /// Gets a reference to the internal buffer of this display.
@@ -52,30 +57,34 @@ impl BufferedDisplay {
         &self.buffer
     }
 
-    fn try_output(&self) -> Option<RwLockWriteGuard<'_, Vec<u8>>> {
-        match self.buffer.try_write() {
-            Ok(g) => Some(g),
-            Err(TryLockError::Poisoned(e)) => Some(e.into_inner()),
-            Err(TryLockError::WouldBlock) => None,
-        }
+    fn try_output(&mut self) -> Option<RwLockWriteGuard<'_, Vec<u8>>> {
+        let mut guard = match self.buffer.try_write() {
+            Ok(g) => g,
+            Err(TryLockError::Poisoned(e)) => e.into_inner(),
+            Err(TryLockError::WouldBlock) => return None,
+        };
+
+        guard.append(&mut self.pending);
+        Some(guard)
     }
 }
 impl DisplayDevice for BufferedDisplay {
-    fn ready(&self) -> bool {
+    fn ready(&mut self) -> bool {
         self.try_output().is_some()
     }
 
     fn send_output(&mut self, byte: u8) -> bool {
-        match self.try_output() {
-            Some(mut d) => {
-                d.push(byte);
-                true
-            },
-            None => false,
-        }
+        self.pending.push(byte);
+        self.flush_output();
+        true
+    }
+
+    fn flush_output(&mut self) {
+        if !self.pending.is_empty() { self.try_output(); }
     }
     
     fn clear_output(&mut self) {
+        self.pending.clear();
         if let Some(mut out) = self.try_output() {
             out.clear();
         }
diff --git a/src/sim/device/keyboard.rs b/src/sim/device/keyboard.rs
index 7a5a491..da29f23 100644
--- a/src/sim/device/keyboard.rs
+++ b/src/sim/device/keyboard.rs
@@ -11,9 +11,9 @@ trait KeyboardDevice: Send + Sync + 'static {
     fn set_interrupts_enabled(&mut self, value: bool);
 
     /// Whether the keyboard has input to take.
-    fn ready(&self) -> bool;
+    fn ready(&mut self) -> bool;
     /// Reads a character from the input (but does not take it).
-    fn get_input(&self) -> Option<u8>;
+    fn get_input(&mut self) -> Option<u8>;
     /// Reads and removes a character from the input.
     fn pop_input(&mut self) -> Option<u8>;
     /// Clears the input completely.
@@ -60,12 +60,19 @@ impl<K: KeyboardDevice> ExternalDevice for DevWrapper<K, dyn KeyboardDevice> {
 #[derive(Default, Clone)]
 pub struct BufferedKeyboard {
     buffer: Arc<RwLock<VecDeque<u8>>>,
-    interrupts_enabled: bool
+    interrupts_enabled: bool,
+    /// The character that was available when the keyboard last reported being ready.
+    /// 
+    /// This is the character to deliver if the buffer is locked by the time it is asked for.
+    latched: Option<u8>,
+    /// A character which was delivered while the buffer was locked,
+    /// so it has yet to be removed from the buffer.
+    taken: Option<u8>
 }
 impl BufferedKeyboard {
     /// Creates a new keyboard, wrapping it around a given buffer.
     pub fn new(buffer: Arc<RwLock<VecDeque<u8>>>) -> Self {
-        Self { buffer, interrupts_enabled: false }
+        Self { buffer, ..Default::default() }
     }
 
     /// Gets a reference to the internal buffer of this keyboard.
@@ -73,12 +80,17 @@ impl BufferedKeyboard {
         &self.buffer
     }
     
-    fn try_input(&self) -> Option<RwLockWriteGuard<'_, VecDeque<u8>>> {
-        match self.buffer.try_write() {
-            Ok(g) => Some(g),
-            Err(TryLockError::Poisoned(e)) => Some(e.into_inner()),
-            Err(TryLockError::WouldBlock) => None,
+    fn try_input(&mut self) -> Option<RwLockWriteGuard<'_, VecDeque<u8>>> {
+        let mut guard = match self.buffer.try_write() {
+            Ok(g) => g,
+            Err(TryLockError::Poisoned(e)) => e.into_inner(),
+            Err(TryLockError::WouldBlock) => return None,
+        };
+
+        if let Some(byte) = self.taken.take() {
+            if guard.front() == Some(&byte) { guard.pop_front(); }
         }
+        Some(guard)
     }
 }
 impl KeyboardDevice for BufferedKeyboard {
@@ -90,19 +102,32 @@ impl KeyboardDevice for BufferedKeyboard {
         self.interrupts_enabled = value;
     }
 
-    fn ready(&self) -> bool {
-        self.try_input().is_some_and(|buf| !buf.is_empty())
+    fn ready(&mut self) -> bool {
+        let Some(front) = self.try_input().map(|buf| buf.front().copied()) else { return false };
+        self.latched = front;
+        front.is_some()
     }
 
-    fn get_input(&self) -> Option<u8> {
-        self.try_input()?.front().copied()
+    fn get_input(&mut self) -> Option<u8> {
+        match self.try_input().map(|buf| buf.front().copied()) {
+            Some(front) => front,
+            None => self.latched,
+        }
     }
 
     fn pop_input(&mut self) -> Option<u8> {
-        self.try_input()?.pop_front()
+        let latched = self.latched.take();
+        match self.try_input().map(|mut buf| buf.pop_front()) {
+            Some(front) => front,
+            None => {
+                if latched.is_some() { self.taken = latched; }
+                latched
+            }
+        }
     }
     
     fn clear_input(&mut self) {
+        self.latched = None;
         if let Some(mut inp) = self.try_input() {
             inp.clear();
         }
-- 
2.43.0


From 7c960af8711fe8c887a72eb62732c0398f6e03e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:49 +0000
Subject: [PATCH 10/25] fix: write relocation addresses in the byte order the
 binary reader expects

---
 src/asm/encoding.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/encoding.rs b/src/asm/encoding.rs
index 77d032a..d6b7192 100644
--- a/src/asm/encoding.rs
+++ b/src/asm/encoding.rs
@@ -134,7 +134,7 @@ impl ObjFileFormat for BinaryFormat {
 
             for (&addr, label) in &sym.rel_map {
                 bytes.push(0x04);
-                bytes.extend(u16::to_be_bytes(addr));
+                bytes.extend(u16::to_le_bytes(addr));
                 bytes.extend(u64::to_le_bytes(label.len() as u64));
                 bytes.extend_from_slice(label.as_bytes());
             }
-- 
2.43.0


From 049cc5382d7ec382961f384c1d89802cc74c1ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:49 +0000
Subject: [PATCH 11/25] fix: do not map .external lines to an address in the
 line table

---
 src/asm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index 0ca07f1..c8ea3c9 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -677,7 +677,7 @@ impl SymbolTable {
                 // Calculate which source code line is associated with the instruction the LC is currently pointing to
                 // and add the mapping from line to instruction address.
                 if let Some((lines, s)) = &mut debug_sym {
-                    if !matches!(stmt.nucleus, StmtKind::Directive(Directive::Orig(_) | Directive::End)) {
+                    if !matches!(stmt.nucleus, StmtKind::Directive(Directive::Orig(_) | Directive::End | Directive::External(_))) {
                         let line_index = s.get_line(stmt.span.start);
                         lines[line_index].replace(cur.lc);
                     }
-- 
2.43.0


From 5576ee1ee33d4831dba1f633d737ef411e259685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:48 +0000
Subject: [PATCH 12/25] fix: cap the text format's label column at the widest
 width formatting allows

---
 src/asm/encoding.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/asm/encoding.rs b/src/asm/encoding.rs
index d6b7192..0e6bcdd 100644
--- a/src/asm/encoding.rs
+++ b/src/asm/encoding.rs
@@ -365,6 +365,8 @@ impl ObjFileFormat for TextFormat {
                             (LABEL.len(), INDEX.len()), 
                             |(lc, ic), (lx, ix)| (lc.max(lx), ic.max(ix))
                         );
+                    // Format widths cannot exceed u16::MAX.
+                    let label_col = label_col.min(usize::from(u16::MAX));
 
                     // Display!
                     writeln!(buf, "{LABEL:1$}{0}{INDEX:2$}", TABLE_DIV, label_col, index_col)?;
-- 
2.43.0


From 3df6b8f52a4988d182613a09786505963e10466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:06 +0000
Subject: [PATCH 13/25] fix: check block overlap when linking without
 overflowing

---
 src/asm.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index c8ea3c9..b5b0780 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -1219,8 +1219,9 @@ impl ObjectFile {
         let mut second = a_obj.block_map.iter();
         second.next();
         if std::iter::zip(first, second).any(|((&a_st, a_bl), (&b_st, b_bl))| {
-            let ar = a_st .. (a_st + a_bl.len() as u16);
-            let br = b_st .. (b_st + b_bl.len() as u16);
+            // Object files read from disk may hold blocks that wrap around memory.
+            let ar = usize::from(a_st) .. (usize::from(a_st) + a_bl.len());
+            let br = usize::from(b_st) .. (usize::from(b_st) + b_bl.len());
             ranges_overlap(ar, br)
         }) {
             return Err(AsmErr::new(AsmErrKind::OverlappingBlocks, []));
-- 
2.43.0


From 3b3f1e3355043012bf77ae4332043ba635ef616d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:06 +0000
Subject: [PATCH 14/25] fix: do not panic when linking an object file whose
 relocation entry lies outside its blocks

---
 src/asm.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index b5b0780..be776c7 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -1293,11 +1293,11 @@ impl ObjectFile {
             (ma, mb) => ma.or(mb)
         };
         for (addr, linked_addr) in relocations {
-            // TODO: handle case where the address needed is not found in block map
-            // should really only occur from invalid manipulation of obj file
-            a_obj.get_mut(addr)
-                .unwrap_or_else(|| unreachable!("object file should have had address x{addr:04X} bound"))
-                .replace(linked_addr);
+            // The address is only missing from the block map if the object file is malformed,
+            // in which case there is no word to relocate.
+            if let Some(word) = a_obj.get_mut(addr) {
+                word.replace(linked_addr);
+            }
         }
 
         Ok(a_obj)
-- 
2.43.0


From a4ef9757ef99a5e9015ba63825eecfeef6651df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:06 +0000
Subject: [PATCH 15/25] fix: read text object files whose .DEBUG section has a
 single divider

---
 src/asm/encoding.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/asm/encoding.rs b/src/asm/encoding.rs
index 0e6bcdd..176c2bd 100644
--- a/src/asm/encoding.rs
+++ b/src/asm/encoding.rs
@@ -508,7 +508,12 @@ impl ObjFileFormat for TextFormat {
                 ".DEBUG" => if !rest.is_empty() {
                     let split_pos = rest.iter().position(|l| l.starts_with('='))?;
                     if !rest.last()?.starts_with('=') { return None; }
-                    let (label_src, [_, line_src @ .., _]) = rest.split_at(split_pos) else { unreachable!("divider should be present") };
+                    let (label_src, line_src) = rest.split_at(split_pos);
+                    // Without debug symbols, the divider after the label table is also the last one.
+                    let line_src = match line_src {
+                        [_, line_src @ .., _] => line_src,
+                        _ => &[],
+                    };
 
                     let label_table = parse_table(label_src, ["LABEL", "INDEX"], |[label, index_str], _| {
                         let index = index_str.parse().ok()?;
-- 
2.43.0


From 7568343f5c9bd139bf6a6d0e85c8956b36486e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:13 +0000
Subject: [PATCH 16/25] fix: do not overflow on object files with huge line
 numbers

---
 src/asm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/asm.rs b/src/asm.rs
index be776c7..74a826e 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -248,6 +248,9 @@ impl LineSymbolMap {
 
         bl.sort_by_key(|&(l, _)| l);
         
+        // Check line numbers do not overflow:
+        if bl.iter().any(|(l, b)| l.checked_add(b.len()).is_none()) { return None; }
+
         // Check not overlapping:
         let not_overlapping = bl.windows(2).all(|win| {
             let [(ls, lb), (rs, _)] = win else { unreachable!() };
@@ -474,7 +477,9 @@ impl DebugSymbols {
 
         // B doesn't overlap with A because ObjectFile check
         a.line_map.0.extend({
+            // (A malformed object file can have line numbers that are too large to shift.)
             b.line_map.0.into_iter()
+                .filter(|(k, v)| k.checked_add(v.len()).and_then(|end| end.checked_add(lines)).is_some())
                 .map(|(k, v)| (k + lines, v))
         });
 
-- 
2.43.0


From 4ad91db1e4ee83d96124854ab4f0c9b4fee5e406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:33 +0000
Subject: [PATCH 17/25] fix: do not overflow computing the span of a label read
 from an object file

---
 src/asm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index 74a826e..9c0b797 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -446,7 +446,8 @@ struct SymbolData {
 impl SymbolData {
     /// Calculates the source range of this symbol, given the name of the label.
     fn span(&self, label: &str) -> Range<usize> {
-        self.src_start .. (self.src_start + label.len())
+        // Object files read from disk can hold any start.
+        self.src_start .. self.src_start.saturating_add(label.len())
     }
 }
 
-- 
2.43.0


From dc0a38f9933201fc5e6a064923c2b48b72a7a790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:07 +0000
Subject: [PATCH 18/25] fix: shift the linked file's label spans to where its
 source is placed

---
 src/asm.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index 9c0b797..b1a3000 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -1239,6 +1239,12 @@ impl ObjectFile {
             // If we have both symbol tables:
             (Some(mut a_sym), Some(b_sym)) => {
                 let SymbolTable { label_map, rel_map, debug_symbols: b_debug_symbols } = b_sym;
+                // B's source is placed after A's source and a new line (see `DebugSymbols::link`),
+                // so the labels defined in B's source move with it.
+                let src_shift = match (&a_sym.debug_symbols, &b_debug_symbols) {
+                    (Some(ads), Some(_)) => ads.src_info.source().len() + 1,
+                    _ => 0,
+                };
                 a_sym.debug_symbols = match (a_sym.debug_symbols, b_debug_symbols) {
                     (Some(ads), Some(bds)) => Some(DebugSymbols::link(ads, bds)?),
                     (m_ads, b_ads) => m_ads.or(b_ads)
@@ -1248,7 +1254,8 @@ impl ObjectFile {
                 a_sym.rel_map.extend(rel_map);
 
                 // For every label in symbol table B:
-                for (label, b_sym_data) in label_map {
+                for (label, mut b_sym_data) in label_map {
+                    b_sym_data.src_start = b_sym_data.src_start.saturating_add(src_shift);
                     match a_sym.label_map.entry(label) {
                         Entry::Occupied(mut e) => {
                             let &a_sym_data = e.get();
-- 
2.43.0


From bc7b5eaf1f87f8f91f98e5bee569ccf2c190bd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:09 +0000
Subject: [PATCH 19/25] fix: keep unresolved external references when
 assembling without debug symbols

---
 src/asm.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index b1a3000..e2e4ee6 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -512,7 +512,7 @@ impl DebugSymbols {
 /// Without debug symbols, the symbol table only consists of mappings from labels to spans (and vice-versa).
 /// These are used to translate labels in source code to addresses during the assembly process.
 /// After the completion of this assembly process, the [`SymbolTable`] is dropped and is not part of the resultant
-/// [`ObjectFile`].
+/// [`ObjectFile`] (unless the program has references to external labels, which still need to be linked).
 /// 
 /// However, with debug symbols, this information persists in the resultant [`ObjectFile`], allowing
 /// the label mappings to be accessed during simulation time. Additionally, more information from the source
@@ -1189,9 +1189,12 @@ impl ObjectFile {
         let block_map = block_map.into_iter()
             .map(|(start, ObjBlock { words, .. })| (start, words))
             .collect();
+        // Unresolved references to external labels cannot be loaded or linked without the symbol table,
+        // so it is kept for them even if debug symbols were not requested.
+        let keep_sym = debug || !sym.rel_map.is_empty();
         Ok(Self {
             block_map,
-            sym: debug.then_some(sym),
+            sym: keep_sym.then_some(sym),
         })
     }
 
-- 
2.43.0


From 9bddb9a28e431b1f7137626950f4b477815c81db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:17 +0000
Subject: [PATCH 20/25] fix: report label spans as long as the label's text in
 the source

---
 src/asm.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index e2e4ee6..8450245 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -804,7 +804,17 @@ impl SymbolTable {
     /// ```
     pub fn get_label_source(&self, label: &str) -> Option<Range<usize>> {
         self.label_map.get(label)
-            .map(|data| data.span(label))
+            .map(|data| {
+                let span = data.span(label);
+                // The label's upper-cased name may not be as long as the text in the source.
+                let len = self.source_info()
+                    .and_then(|s| s.source().get(span.start..))
+                    .and_then(|text| source_len(text, label));
+                match len {
+                    Some(n) => span.start .. (span.start + n),
+                    None => span
+                }
+            })
     }
 
     /// Gets the address of a given source line.
@@ -965,6 +975,18 @@ fn replace_pc_offset<const N: u32>(off: PCOffset<i16, N>, pc: u16, sym: &SymbolT
     }
 }
 
+/// Finds the length of the shortest prefix of `text` which is the provided upper-cased label (if there is one).
+fn source_len(text: &str, label: &str) -> Option<usize> {
+    let mut rest = label;
+    for (i, c) in text.char_indices() {
+        if rest.is_empty() { return Some(i); }
+        for u in c.to_uppercase() {
+            rest = rest.strip_prefix(u)?;
+        }
+    }
+    rest.is_empty().then_some(text.len())
+}
+
 /// Checks if two ranges overlap.
 /// 
 /// This assumes (start <= end) for both ranges.
-- 
2.43.0


From 287e2788aa93eb7832747072d769689be5f079ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 21/25] fix: do not panic on a string escape that is cut off or
 not ASCII

---
 src/parse/lex.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/parse/lex.rs b/src/parse/lex.rs
index 869b89a..f2271fd 100644
--- a/src/parse/lex.rs
+++ b/src/parse/lex.rs
@@ -263,23 +263,23 @@ fn lex_str_literal(lx: &mut Lexer<'_, Token>) -> Result<String, LexErr> {
         match mid {
             "\\" => {
                 // the next character is part of the escape:
-                let esc = right.as_bytes()
-                    .first()
-                    .unwrap_or_else(|| unreachable!("expected character after escape")); // there always has to be one, cause last character is not \
-                match esc {
-                    b'n'  => buf.push('\n'),
-                    b'r'  => buf.push('\r'),
-                    b't'  => buf.push('\t'),
-                    b'\\' => buf.push('\\'),
-                    b'0'  => buf.push('\0'),
-                    b'"'  => buf.push('\"'),
-                    &c => {
+                let mut rest = right.chars();
+                match rest.next() {
+                    Some('n')  => buf.push('\n'),
+                    Some('r')  => buf.push('\r'),
+                    Some('t')  => buf.push('\t'),
+                    Some('\\') => buf.push('\\'),
+                    Some('0')  => buf.push('\0'),
+                    Some('"')  => buf.push('\"'),
+                    Some(c) => {
                         buf.push('\\');
-                        buf.push(char::from(c));
+                        buf.push(c);
                     }
+                    // the line ends before the literal is closed
+                    None => break,
                 }
                 
-                remaining = &right[1..];
+                remaining = rest.as_str();
             },
             "\"" => {
                 remaining = right;
-- 
2.43.0


From 774ffcd1882993c53416f7a2bb9745f20bad7707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 22/25] fix: find the source of a label under any letter-case
 spelling

---
 src/asm.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 8450245..0293214 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -803,13 +803,14 @@ impl SymbolTable {
     /// assert_eq!(sym.get_label_source("LOOP_DE_LOOP"), None);
     /// ```
     pub fn get_label_source(&self, label: &str) -> Option<Range<usize>> {
-        self.label_map.get(label)
+        let label = label.to_uppercase();
+        self.label_map.get(&label)
             .map(|data| {
-                let span = data.span(label);
+                let span = data.span(&label);
                 // The label's upper-cased name may not be as long as the text in the source.
                 let len = self.source_info()
                     .and_then(|s| s.source().get(span.start..))
-                    .and_then(|text| source_len(text, label));
+                    .and_then(|text| source_len(text, &label));
                 match len {
                     Some(n) => span.start .. (span.start + n),
                     None => span
-- 
2.43.0


From 78e5eb41414ba511809bf815fa8a9a29428dda2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 23/25] fix: give block overlaps found in linking a span that
 can be queried

---
 src/asm.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index 0293214..b2d8673 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -1241,9 +1241,12 @@ impl ObjectFile {
     pub fn link(mut a_obj: Self, b_obj: Self) -> Result<Self, AsmErr> {
         let Self { block_map: b_block_map, sym: b_sym } = b_obj;
 
+        // Object files do not record where in the source their blocks are.
+        let overlapping_blocks = || AsmErr::new(AsmErrKind::OverlappingBlocks, 0..0);
+
         for (addr, block) in b_block_map {
             if a_obj.block_map.insert(addr, block).is_some() {
-                return Err(AsmErr::new(AsmErrKind::OverlappingBlocks, []));
+                return Err(overlapping_blocks());
             }
         }
 
@@ -1256,7 +1259,7 @@ impl ObjectFile {
             let br = usize::from(b_st) .. (usize::from(b_st) + b_bl.len());
             ranges_overlap(ar, br)
         }) {
-            return Err(AsmErr::new(AsmErrKind::OverlappingBlocks, []));
+            return Err(overlapping_blocks());
         }
 
         // Merge symbol tables:
-- 
2.43.0


From 28ab9c2be51c35b826d4c7ab679472664b0214ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 24/25] fix: report the first definition of a duplicated label
 with the span of its text

---
 src/asm.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/asm.rs b/src/asm.rs
index b2d8673..8712e6d 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -602,6 +602,7 @@ impl SymbolTable {
 
         fn add_label(
             labels: &mut HashMap<String, SymbolData>, 
+            label_spans: &mut HashMap<String, Span>,
             label: &crate::ast::Label, 
             addr: u16,
             external: bool
@@ -609,7 +610,8 @@ impl SymbolTable {
             match labels.entry(label.name.to_uppercase()) {
                 // Two labels with different addresses. Conflict.
                 Entry::Occupied(e) if e.get().addr != addr => {
-                    let span1 = e.get().span(e.key());
+                    // The upper-cased key may not be as long as the text in the source.
+                    let span1 = label_spans[e.key()].clone();
                     let span2 = label.span();
                     Err(AsmErr::new(AsmErrKind::OverlappingLabels, [span1, span2]))
                 },
@@ -617,6 +619,7 @@ impl SymbolTable {
                 Entry::Occupied(_) => Ok(()),
                 // New label.
                 Entry::Vacant(e) => {
+                    label_spans.insert(e.key().clone(), label.span());
                     e.insert(SymbolData { addr, src_start: label.span().start, external });
                     Ok(())
                 }
@@ -625,6 +628,7 @@ impl SymbolTable {
 
         let mut cursor: Option<Cursor> = None;
         let mut label_map: HashMap<String, SymbolData> = HashMap::new();
+        let mut label_spans: HashMap<String, Span> = HashMap::new();
         let mut rel_map = HashMap::new();
         let mut debug_sym = src.map(|s| {
             let src_info = SourceInfo::new(s);
@@ -646,7 +650,7 @@ impl SymbolTable {
 
                 // Add labels
                 for label in &stmt.labels {
-                    add_label(&mut label_map, label, cur.lc, false)?;
+                    add_label(&mut label_map, &mut label_spans, label, cur.lc, false)?;
                 }
             }
 
@@ -662,7 +666,7 @@ impl SymbolTable {
                 },
                 StmtKind::Directive(Directive::External(label)) => {
                     // Arbitrarily chose 0 as a placeholder for externals
-                    add_label(&mut label_map, label, 0, true)?;
+                    add_label(&mut label_map, &mut label_spans, label, 0, true)?;
                 }
                 StmtKind::Directive(Directive::Fill(PCOffset::Label(label))) => {
                     let label_text = label.name.to_uppercase();
-- 
2.43.0


From 2c0852f3fcd665bc21a50df588d871fc82a23f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 25/25] fix: place positions past the end of the source on its
 last line

---
 src/asm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/asm.rs b/src/asm.rs
index 8712e6d..9c92322 100644
--- a/src/asm.rs
+++ b/src/asm.rs
@@ -408,7 +408,9 @@ impl SourceInfo {
 
     /// Gets the line number of the current position.
     fn get_line(&self, index: usize) -> usize {
+        // Anything past the end of the source is on the last line.
         self.nl_indices.partition_point(|&start| start < index)
+            .min(self.nl_indices.len() - 1)
     }
 
     /// Calculates the line and character number for a given character index.
@@ -420,7 +422,6 @@ impl SourceInfo {
         let lno = self.get_line(index);
 
         let Range { start: lstart, .. } = self.raw_line_span(lno)
-            .or_else(|| self.raw_line_span(self.nl_indices.len()))
             .unwrap_or(0..0);
         let cno = index - lstart;
         (lno, cno)
-- 
2.43.0

