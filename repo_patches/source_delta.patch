From ef95108d83a00c7ee867806c55debe90973694a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:51 +0000
Subject: [PATCH 01/17] fix: report a pause or a cycle overflow met while
 single-stepping the asm machine

AsmMachine::step turned RET_PAUSE and RET_CYCLES_OVERFLOW into Error::Asm(n), and
never freed the pause signal.
---
 src/machine/asm/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/machine/asm/mod.rs b/src/machine/asm/mod.rs
index 2f718cd..5755e8e 100644
--- a/src/machine/asm/mod.rs
+++ b/src/machine/asm/mod.rs
@@ -756,6 +756,7 @@ impl AsmMachine {
             RET_ECALL => self.machine.ecall()?,
             RET_EBREAK => self.machine.ebreak()?,
             RET_MAX_CYCLES_EXCEEDED => return Err(Error::CyclesExceeded),
+            RET_CYCLES_OVERFLOW => return Err(Error::CyclesOverflow),
             RET_OUT_OF_BOUND => {
                 return Err(Error::MemOutOfBound(
                     self.machine.inner.error_arg0,
@@ -772,6 +773,10 @@ impl AsmMachine {
                 let instruction = decoder.decode(self.machine.memory_mut(), pc)?;
                 execute_instruction(instruction, &mut self.machine)?;
             }
+            RET_PAUSE => {
+                self.machine.pause.free();
+                return Err(Error::Pause);
+            }
             _ => return Err(Error::Asm(result)),
         }
         Ok(())
-- 
2.43.0


From 592e761d72d533b3fb497da40e1599d076c62669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:05 +0000
Subject: [PATCH 02/17] fix: keep the cost of a decoded trace from wrapping

A trace whose instructions together cost more than u64::MAX panicked in debug
builds and was charged the wrapped sum otherwise. Cut the trace before the
instruction that does not fit; running into it then reports CyclesOverflow.
---
 src/machine/asm/traces.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/machine/asm/traces.rs b/src/machine/asm/traces.rs
index edcc603..b1e955e 100644
--- a/src/machine/asm/traces.rs
+++ b/src/machine/asm/traces.rs
@@ -56,8 +56,14 @@ pub fn decode_fixed_trace<D: InstDecoder>(
     while i < size {
         let instruction = decoder.decode(machine.memory_mut(), current_pc)?;
         let end_instruction = is_basic_block_end_instruction(instruction);
+        let cycles = machine.instruction_cycle_func()(instruction);
+        trace.cycles = match trace.cycles.checked_add(cycles) {
+            Some(cycles) => cycles,
+            // The cost of a trace must be representable: leave this instruction
+            // to the next one, executing it will then report the overflow.
+            None => break,
+        };
         current_pc += u64::from(instruction_length(instruction));
-        trace.cycles += machine.instruction_cycle_func()(instruction);
         let opcode = extract_opcode(instruction);
         // Here we are calculating the absolute address used in direct threading
         // from label offsets.
@@ -311,6 +317,12 @@ impl<D: InstDecoder> MemoizedDynamicTraceDecoder<D> {
             let instruction = self.decode(machine.memory_mut(), builder.next_pc())?;
             let end_instruction = is_basic_block_end_instruction(instruction);
             let cycles = machine.instruction_cycle_func()(instruction);
+            if builder.cycles.checked_add(cycles).is_none() {
+                // The cost of a trace must be representable: leave this
+                // instruction to the next one, executing it will then report
+                // the overflow.
+                break;
+            }
             builder.push(instruction, cycles);
             if end_instruction {
                 break;
-- 
2.43.0


From c0eae8424a8fa755af447b57d3084faf6432d445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 03/17] fix: keep whole pages in snapshots of 32-bit machines

make_snapshot read memory through load64, whose result a 32-bit register
truncates: the upper half of every 8 bytes was saved as zero.
---
 src/snapshot.rs | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index ec42379..9c66813 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -49,25 +49,12 @@ pub fn make_snapshot<T: CoreMachine>(machine: &mut T) -> Result<Snapshot, Error>
     for i in 0..machine.memory().memory_pages() {
         let flag = machine.memory_mut().fetch_flag(i as u64)?;
         if flag & FLAG_DIRTY != 0 {
-            let addr_from = i << RISCV_PAGE_SHIFTS;
-            let addr_to = (i + 1) << RISCV_PAGE_SHIFTS;
-
-            let mut page = vec![0; RISCV_PAGESIZE];
-            for i in (addr_from..addr_to).step_by(8) {
-                let v64 = machine
-                    .memory_mut()
-                    .load64(&T::REG::from_u64(i as u64))?
-                    .to_u64();
-                let j = i - addr_from;
-                page[j] = v64 as u8;
-                page[j + 1] = (v64 >> 8) as u8;
-                page[j + 2] = (v64 >> 16) as u8;
-                page[j + 3] = (v64 >> 24) as u8;
-                page[j + 4] = (v64 >> 32) as u8;
-                page[j + 5] = (v64 >> 40) as u8;
-                page[j + 6] = (v64 >> 48) as u8;
-                page[j + 7] = (v64 >> 56) as u8;
-            }
+            // Registers can be narrower than 64 bits, read raw bytes instead of
+            // going through them.
+            let page = machine
+                .memory_mut()
+                .load_bytes((i << RISCV_PAGE_SHIFTS) as u64, RISCV_PAGESIZE as u64)?
+                .to_vec();
 
             snap.page_indices.push(i as u64);
             snap.page_flags.push(flag);
-- 
2.43.0


From 802192e2b920e93e549ec804cbd915ada235770b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 04/17] fix: drop stale page tracking when segments of a
 program overlap

mark_program kept a page tracked to the segment that was loaded first although a
later segment overwrites part of it; the snapshot then restored the wrong bytes.
---
 src/snapshot2.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/snapshot2.rs b/src/snapshot2.rs
index f06d25e..7a9c232 100644
--- a/src/snapshot2.rs
+++ b/src/snapshot2.rs
@@ -229,6 +229,9 @@ impl<I: Clone + PartialEq, D: DataSource<I>> Snapshot2Context<I, D> {
         id: &I,
         offset: u64,
     ) -> Result<(), Error> {
+        // Loading this segment has overwritten all its pages, they can no longer
+        // be located via a segment that was loaded (and tracked) earlier.
+        self.untrack_pages(machine, action.addr, action.size)?;
         let start = action.addr + action.offset_from_addr;
         let length = min(
             action.source.end - action.source.start,
-- 
2.43.0


From 4bddb94df8b60b5216621d9819b3a1264e98dd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 05/17] fix: refuse snapshots whose page lists do not match

resume panicked when page_flags or pages was shorter than page_indices, and
stored pages of another size or with a wrapping index over other pages.
---
 src/snapshot.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/snapshot.rs b/src/snapshot.rs
index 9c66813..36526c8 100644
--- a/src/snapshot.rs
+++ b/src/snapshot.rs
@@ -68,6 +68,13 @@ pub fn resume<T: CoreMachine>(machine: &mut T, snapshot: &Snapshot) -> Result<()
     if machine.version() != snapshot.version {
         return Err(Error::InvalidVersion);
     }
+    // Each saved page consists of an index, a flag and its content.
+    if snapshot.page_flags.len() != snapshot.page_indices.len()
+        || snapshot.pages.len() != snapshot.page_indices.len()
+        || snapshot.pages.iter().any(|p| p.len() != RISCV_PAGESIZE)
+    {
+        return Err(Error::SnapshotDataLoadError);
+    }
     for (i, v) in snapshot.registers.iter().enumerate() {
         machine.set_register(i, T::REG::from_u64(*v));
     }
@@ -77,6 +84,8 @@ pub fn resume<T: CoreMachine>(machine: &mut T, snapshot: &Snapshot) -> Result<()
         let page_index = snapshot.page_indices[i];
         let page_flag = snapshot.page_flags[i];
         let page = &snapshot.pages[i];
+        // Refuse pages beyond the memory, whose addresses might wrap around.
+        machine.memory_mut().fetch_flag(page_index)?;
         let addr_from = page_index << RISCV_PAGE_SHIFTS;
         machine.memory_mut().store_bytes(addr_from, &page[..])?;
         machine.memory_mut().set_flag(page_index, page_flag)?;
-- 
2.43.0


From dcd762cf58495b17d2e35dafe58606d43853056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 06/17] fix: refuse to resume when the data source provides
 less than the snapshot says

The missing pages were silently left out of the restored memory.
---
 src/snapshot2.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/snapshot2.rs b/src/snapshot2.rs
index 7a9c232..43014e4 100644
--- a/src/snapshot2.rs
+++ b/src/snapshot2.rs
@@ -71,6 +71,10 @@ impl<I: Clone + PartialEq, D: DataSource<I>> Snapshot2Context<I, D> {
                 return Err(Error::MemPageUnalignedAccess(*address));
             }
             let (data, _) = self.load_data(id, *offset, *length)?;
+            // The data source must still provide all the data the snapshot refers to.
+            if data.len() as u64 != *length {
+                return Err(Error::SnapshotDataLoadError);
+            }
             if data.len() as u64 % PAGE_SIZE != 0 {
                 return Err(Error::MemPageUnalignedAccess(
                     address.wrapping_add(data.len() as u64),
-- 
2.43.0


From e40f9ad65b6c1e5e6c7af6d2fd401e58bed96ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:05 +0000
Subject: [PATCH 07/17] fix: cache the written page only once the store is
 permitted

A refused store left the page in last_write_page, so a machine run again
after the error accepted every later store to that page, executable or
beyond the end of guest memory.
---
 src/machine/asm/execute_aarch64.S | 2 +-
 src/machine/asm/execute_x64.S     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/machine/asm/execute_aarch64.S b/src/machine/asm/execute_aarch64.S
index 3cf7b42..8f5bc1a 100644
--- a/src/machine/asm/execute_aarch64.S
+++ b/src/machine/asm/execute_aarch64.S
@@ -234,7 +234,6 @@
   cmp TEMP1, TEMP2 SEP \
   beq 2f SEP \
 3: \
-  str TEMP1, [MACHINE, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_LAST_WRITE_PAGE] SEP \
   ldr TEMP2, [MACHINE, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_FLAGS_SIZE] SEP \
   cmp TEMP1, TEMP2 SEP \
   bhs .exit_out_of_bound SEP \
@@ -244,6 +243,7 @@
   and TEMP3, TEMP3, CKB_VM_ASM_MEMORY_FLAG_WXORX_BIT SEP \
   cmp TEMP3, CKB_VM_ASM_MEMORY_FLAG_WRITABLE SEP \
   bne .exit_invalid_permission SEP \
+  str TEMP1, [MACHINE, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_LAST_WRITE_PAGE] SEP \
   orr TEMP2, TEMP2, CKB_VM_ASM_MEMORY_FLAG_DIRTY SEP \
   strb TEMP2w, [TEMP5, TEMP1] SEP \
   mov TEMP2, TEMP1 SEP \
diff --git a/src/machine/asm/execute_x64.S b/src/machine/asm/execute_x64.S
index 1100933..15f4484 100644
--- a/src/machine/asm/execute_x64.S
+++ b/src/machine/asm/execute_x64.S
@@ -272,7 +272,6 @@
   je 2f;\
 3:; \
   movq address_reg, TEMP3; \
-  movq TEMP1, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_LAST_WRITE_PAGE(MACHINE); \
   movq CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_FLAGS_SIZE(MACHINE), TEMP2; \
   cmp TEMP2, TEMP1; \
   jae .exit_out_of_bound; \
@@ -282,6 +281,7 @@
   and $CKB_VM_ASM_MEMORY_FLAG_WXORX_BIT, temp_regd; \
   cmp $CKB_VM_ASM_MEMORY_FLAG_WRITABLE, temp_regd; \
   jne .exit_invalid_permission; \
+  movq TEMP1, CKB_VM_ASM_ASM_CORE_MACHINE_OFFSET_LAST_WRITE_PAGE(MACHINE); \
   or $CKB_VM_ASM_MEMORY_FLAG_DIRTY, TEMP2b; \
   movb TEMP2b, (TEMP3, TEMP1); \
   movq TEMP1, TEMP2; \
-- 
2.43.0


From eb8ccee56877c1091bef70a3ea0bf268f697a8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:05 +0000
Subject: [PATCH 08/17] fix: leave page flags alone when page initialisation is
 refused

---
 src/memory/wxorx.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/memory/wxorx.rs b/src/memory/wxorx.rs
index 8d77385..283ed51 100644
--- a/src/memory/wxorx.rs
+++ b/src/memory/wxorx.rs
@@ -68,7 +68,9 @@ impl<M: Memory> Memory for WXorXMemory<M> {
             if self.fetch_flag(page)? & FLAG_FREEZED != 0 {
                 return Err(Error::MemWriteOnFreezedPage(page));
             }
-            self.set_flag(page, flags)?;
+        }
+        for page_addr in (addr..addr + size).step_by(RISCV_PAGESIZE) {
+            self.set_flag(page_addr / RISCV_PAGESIZE as u64, flags)?;
         }
         self.inner
             .init_pages(addr, size, flags, source, offset_from_addr)
-- 
2.43.0


From 0154b64b90036f4fc0a495966ca4d18c8a3874a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:43 +0000
Subject: [PATCH 09/17] fix: initialise the whole last frame touched by
 FastMemory writes

A page initialisation that starts at a memory frame boundary and ends
inside the last page of a frame, or exactly at the start of that page,
marked the frame as initialised without clearing the bytes behind its
end: the guest could read whatever the host's allocator had left there.
---
 src/machine/asm/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/machine/asm/mod.rs b/src/machine/asm/mod.rs
index 5755e8e..b55414e 100644
--- a/src/machine/asm/mod.rs
+++ b/src/machine/asm/mod.rs
@@ -223,14 +223,13 @@ impl<'a> FastMemory<'a> {
         }
         let end = addr.wrapping_add(size);
         if end > 0 {
-            let aligned_end = round_page_down(end);
             // Note that end is exclusive
             let frame_next_start = (((end - 1) >> MEMORY_FRAME_SHIFTS) + 1) << MEMORY_FRAME_SHIFTS;
             // There is some memory space between the ending address of memory to be
             // written, and the end of the last memory frame touched, we will need to
             // initialize the last memory frame.
-            if (aligned_end + RISCV_PAGESIZE as u64) < frame_next_start {
-                check_memory(self.0, aligned_end >> RISCV_PAGE_SHIFTS);
+            if end < frame_next_start {
+                check_memory(self.0, end >> RISCV_PAGE_SHIFTS);
             }
         }
         let page_indices = get_page_indices(addr, size);
-- 
2.43.0


From 99556b217ffeb981803bfb453a6725de6e3734a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:33 +0000
Subject: [PATCH 10/17] fix: stop when memory for a machine or its traces
 cannot be allocated

The raw allocations of AsmCoreMachine and the trace decoders were used
without looking at the result: with memory exhausted the process went on
with null pointers and crashed touching invalid memory. Use the
allocation error path all other allocations use.
---
 definitions/src/asm.rs    | 14 +++++++++++++-
 src/machine/asm/traces.rs | 13 ++++++++++---
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/definitions/src/asm.rs b/definitions/src/asm.rs
index 6e97a94..24edfd8 100644
--- a/definitions/src/asm.rs
+++ b/definitions/src/asm.rs
@@ -2,7 +2,7 @@ use crate::{
     instructions::Instruction, DEFAULT_MEMORY_SIZE, MEMORY_FRAMESIZE, MEMORY_FRAME_SHIFTS,
     RISCV_GENERAL_REGISTER_NUMBER, RISCV_PAGESIZE,
 };
-use std::alloc::{alloc, alloc_zeroed, dealloc, Layout};
+use std::alloc::{alloc, alloc_zeroed, dealloc, handle_alloc_error, Layout};
 
 // The number of trace items to keep
 pub const TRACE_SIZE: usize = 8192;
@@ -133,6 +133,9 @@ impl AsmCoreMachine {
         let mut machine = unsafe {
             let layout = Layout::new::<AsmCoreMachine>();
             let raw_allocation = alloc_zeroed(layout) as *mut AsmCoreMachine;
+            if raw_allocation.is_null() {
+                handle_alloc_error(layout);
+            }
             Box::from_raw(raw_allocation)
         };
         machine.max_cycles = max_cycles;
@@ -152,10 +155,19 @@ impl AsmCoreMachine {
 
         let memory_layout = Layout::array::<u8>(machine.memory_size as usize).unwrap();
         machine.memory_ptr = unsafe { alloc(memory_layout) } as u64;
+        if machine.memory_ptr == 0 {
+            handle_alloc_error(memory_layout);
+        }
         let flags_layout = Layout::array::<u8>(machine.flags_size as usize).unwrap();
         machine.flags_ptr = unsafe { alloc_zeroed(flags_layout) } as u64;
+        if machine.flags_ptr == 0 {
+            handle_alloc_error(flags_layout);
+        }
         let frames_layout = Layout::array::<u8>(machine.frames_size as usize).unwrap();
         machine.frames_ptr = unsafe { alloc_zeroed(frames_layout) } as u64;
+        if machine.frames_ptr == 0 {
+            handle_alloc_error(frames_layout);
+        }
 
         machine
     }
diff --git a/src/machine/asm/traces.rs b/src/machine/asm/traces.rs
index b1e955e..92d2a4c 100644
--- a/src/machine/asm/traces.rs
+++ b/src/machine/asm/traces.rs
@@ -17,7 +17,7 @@ use crate::{
     },
     memory::Memory,
 };
-use std::alloc::{alloc, alloc_zeroed, Layout};
+use std::alloc::{alloc, alloc_zeroed, handle_alloc_error, Layout};
 use std::collections::HashMap;
 
 pub trait TraceDecoder: InstDecoder {
@@ -95,7 +95,10 @@ impl<D: InstDecoder> SimpleFixedTraceDecoder<D> {
     pub fn new(decoder: D) -> Self {
         let traces = unsafe {
             let layout = Layout::array::<FixedTrace>(TRACE_SIZE).unwrap();
-            let raw_allocation = alloc_zeroed(layout) as *mut _;
+            let raw_allocation = alloc_zeroed(layout) as *mut [FixedTrace; TRACE_SIZE];
+            if raw_allocation.is_null() {
+                handle_alloc_error(layout);
+            }
             Box::from_raw(raw_allocation)
         };
         Self { decoder, traces }
@@ -266,7 +269,11 @@ impl DynamicTraceBuilder {
         let total_size = fixed_size + self.insts.len() * 16;
         let p = unsafe {
             let layout = Layout::array::<u8>(total_size).unwrap();
-            alloc(layout)
+            let p = alloc(layout);
+            if p.is_null() {
+                handle_alloc_error(layout);
+            }
+            p
         };
         let threads = unsafe { p.add(fixed_size) } as *mut u64;
         for (i, (inst, label)) in self.insts.iter().enumerate() {
-- 
2.43.0


From 8ab36314dee7794e36d8b28080e4506e2d26a6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:01 +0000
Subject: [PATCH 11/17] fix: free dynamic traces with the size they were
 allocated with

A Box<DynamicTrace> was made from a larger, byte-aligned allocation
holding the threads as well, and gave the memory back with the size and
alignment of the header alone. Allocators relying on the layout of a
deallocation corrupt their state.
---
 src/machine/asm/traces.rs | 62 +++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/src/machine/asm/traces.rs b/src/machine/asm/traces.rs
index 92d2a4c..2164016 100644
--- a/src/machine/asm/traces.rs
+++ b/src/machine/asm/traces.rs
@@ -17,8 +17,9 @@ use crate::{
     },
     memory::Memory,
 };
-use std::alloc::{alloc, alloc_zeroed, handle_alloc_error, Layout};
+use std::alloc::{alloc_zeroed, handle_alloc_error, Layout};
 use std::collections::HashMap;
+use std::ops::Deref;
 
 pub trait TraceDecoder: InstDecoder {
     fn fixed_traces(&self) -> *const FixedTrace;
@@ -213,13 +214,13 @@ impl<D: InstDecoder> InstDecoder for MemoizedFixedTraceDecoder<D> {
 /// The individual fields in this data structure, albeit similar to FixedTrace,
 /// are marked as privates so one cannot directly instantiate a struct of
 /// DynamicTrace. Instead, all constructions of DynamicTrace are done via
-/// DynamicTraceBuilder, which builds `Box<DynamicTrace>`. This is due to the
+/// DynamicTraceBuilder, which builds `DynamicTraceBox`. This is due to the
 /// reasons that we might have a variable number of `threads` allocated at the
 /// end of this data structure. So on the surface, it might appear that a
 /// struct of DynamicTrace is 24 bytes. In reality it is bigger than this:
 /// a struct of DynamicTrace containing 30 opcodes could be
 /// 24 + 30 * 16 + 16 = 520 bytes long(the final 16 bytes are for OP_CUSTOM_TRACE_END).
-/// Using `Box<DynamicTrace>`, together with `DynamicTraceBuilder`, helps us to
+/// Using `DynamicTraceBox`, together with `DynamicTraceBuilder`, helps us to
 /// abstract this details away when we are constructing the types. The underlying
 /// assembly code cannot tell the difference between DynamicTrace and FixedTrace.
 #[repr(C)]
@@ -260,33 +261,44 @@ impl DynamicTraceBuilder {
         self.insts.push((inst, label));
     }
 
-    pub fn build(mut self) -> Box<DynamicTrace> {
+    pub fn build(mut self) -> DynamicTraceBox {
         self.insts.push((
             blank_instruction(OP_CUSTOM_TRACE_END),
             label_from_fastpath_opcode(OP_CUSTOM_TRACE_END),
         ));
-        let fixed_size = std::mem::size_of::<DynamicTrace>();
-        let total_size = fixed_size + self.insts.len() * 16;
-        let p = unsafe {
-            let layout = Layout::array::<u8>(total_size).unwrap();
-            let p = alloc(layout);
-            if p.is_null() {
-                handle_alloc_error(layout);
-            }
-            p
-        };
-        let threads = unsafe { p.add(fixed_size) } as *mut u64;
+        let fixed_size = std::mem::size_of::<DynamicTrace>() / std::mem::size_of::<u64>();
+        let mut data = vec![0u64; fixed_size + self.insts.len() * 2].into_boxed_slice();
         for (i, (inst, label)) in self.insts.iter().enumerate() {
-            unsafe {
-                threads.offset(i as isize * 2).write(*label);
-                threads.offset(i as isize * 2 + 1).write(*inst);
-            }
+            data[fixed_size + i * 2] = *label;
+            data[fixed_size + i * 2 + 1] = *inst;
         }
-        let mut trace = unsafe { Box::from_raw(p as *mut DynamicTrace) };
-        trace.address = self.start_address;
-        trace.length = self.length;
-        trace.cycles = self.cycles;
-        trace
+        let trace = data.as_mut_ptr() as *mut DynamicTrace;
+        unsafe {
+            trace.write(DynamicTrace {
+                address: self.start_address,
+                length: self.length,
+                cycles: self.cycles,
+            });
+        }
+        DynamicTraceBox(data)
+    }
+}
+
+/// Owns a DynamicTrace together with the threads behind it. A plain
+/// `Box<DynamicTrace>` would give the memory back as if there were none.
+pub struct DynamicTraceBox(Box<[u64]>);
+
+impl Deref for DynamicTraceBox {
+    type Target = DynamicTrace;
+
+    fn deref(&self) -> &DynamicTrace {
+        unsafe { &*(self.0.as_ptr() as *const DynamicTrace) }
+    }
+}
+
+impl AsRef<DynamicTrace> for DynamicTraceBox {
+    fn as_ref(&self) -> &DynamicTrace {
+        self
     }
 }
 
@@ -295,7 +307,7 @@ impl DynamicTraceBuilder {
 pub struct MemoizedDynamicTraceDecoder<D: InstDecoder> {
     inner: SimpleFixedTraceDecoder<D>,
     fixed_cache: HashMap<u64, FixedTrace>,
-    dynamic_cache: HashMap<u64, Box<DynamicTrace>>,
+    dynamic_cache: HashMap<u64, DynamicTraceBox>,
 }
 
 impl<D: InstDecoder> MemoizedDynamicTraceDecoder<D> {
-- 
2.43.0


From 68ffbcfd1bb7bb7fc19ac6b3926129be31871cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:09 +0000
Subject: [PATCH 12/17] fix: index sparse memory pages with 32 bits

---
 src/memory/sparse.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/memory/sparse.rs b/src/memory/sparse.rs
index 09cf917..c74c38a 100644
--- a/src/memory/sparse.rs
+++ b/src/memory/sparse.rs
@@ -7,16 +7,16 @@ use bytes::Bytes;
 use std::cmp::min;
 use std::marker::PhantomData;
 
-const INVALID_PAGE_INDEX: u16 = 0xFFFF;
+const INVALID_PAGE_INDEX: u32 = 0xFFFF_FFFF;
 
 /// A sparse flat memory implementation, it allocates pages only when requested,
 /// but besides that, it does not permission checking.
 pub struct SparseMemory<R> {
     // Stores the indices of each page in pages data structure, if a page hasn't
     // been initialized, the corresponding position will be filled with
-    // INVALID_PAGE_INDEX. Considering u16 takes 2 bytes, this add an additional
-    // of 64KB extra storage cost assuming we have 128MB memory.
-    indices: Vec<u16>,
+    // INVALID_PAGE_INDEX. Considering u32 takes 4 bytes, this add an additional
+    // of 128KB extra storage cost assuming we have 128MB memory.
+    indices: Vec<u32>,
     pages: Vec<Page>,
     flags: Vec<u8>,
     memory_size: usize,
@@ -34,7 +34,7 @@ impl<R: Register> SparseMemory<R> {
         let mut index = self.indices[page as usize];
         if index == INVALID_PAGE_INDEX {
             self.pages.push([0; RISCV_PAGESIZE]);
-            index = (self.pages.len() - 1) as u16;
+            index = (self.pages.len() - 1) as u32;
             self.indices[page as usize] = index;
         }
         Ok(&mut self.pages[index as usize])
-- 
2.43.0


From 348deb64cbcacd5a7f2a4720224a38208be299a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 13/17] fix: keep lui and jalr apart when their sum does not
 fit 32 bits

---
 src/decoder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/decoder.rs b/src/decoder.rs
index 4776392..c7018f6 100644
--- a/src/decoder.rs
+++ b/src/decoder.rs
@@ -587,7 +587,12 @@ impl Decoder {
                         } else {
                             next_inst.rs1() == head_inst.rd() && next_inst.rd() == RA
                         };
-                        if test_condition {
+                        // Older versions wrap at 32 bits, even on RV64.
+                        let representable = head_inst
+                            .immediate_s()
+                            .checked_add(next_inst.immediate_s())
+                            .is_some();
+                        if test_condition && (representable || self.version < VERSION2) {
                             let fuze_imm = head_inst
                                 .immediate_s()
                                 .wrapping_add(next_inst.immediate_s());
-- 
2.43.0


From 1ed7c068e97f78bde10da2831188a94a48ed6c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 14/17] fix: do not report the exit code of an earlier run

---
 src/machine/asm/mod.rs | 1 +
 src/machine/mod.rs     | 1 +
 src/machine/trace.rs   | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/machine/asm/mod.rs b/src/machine/asm/mod.rs
index b55414e..aca4bb6 100644
--- a/src/machine/asm/mod.rs
+++ b/src/machine/asm/mod.rs
@@ -691,6 +691,7 @@ impl AsmMachine {
         if self.machine.isa() & ISA_MOP != 0 && self.machine.version() == VERSION0 {
             return Err(Error::InvalidVersion);
         }
+        self.machine.exit_code = 0;
         self.machine.set_running(true);
         while self.machine.running() {
             if self.machine.reset_signal() {
diff --git a/src/machine/mod.rs b/src/machine/mod.rs
index 8babb79..ba71cf5 100644
--- a/src/machine/mod.rs
+++ b/src/machine/mod.rs
@@ -657,6 +657,7 @@ impl<Inner: SupportMachine> DefaultMachine<Inner> {
         if self.isa() & ISA_MOP != 0 && self.version() == VERSION0 {
             return Err(Error::InvalidVersion);
         }
+        self.exit_code = 0;
         self.set_running(true);
         while self.running() {
             if self.pause.has_interrupted() {
diff --git a/src/machine/trace.rs b/src/machine/trace.rs
index 9b500f2..986e644 100644
--- a/src/machine/trace.rs
+++ b/src/machine/trace.rs
@@ -137,6 +137,7 @@ impl<Inner: SupportMachine> TraceMachine<Inner> {
     }
 
     pub fn run_with_decoder<D: InstDecoder>(&mut self, decoder: &mut D) -> Result<i8, Error> {
+        self.machine.exit_code = 0;
         self.machine.set_running(true);
         // For current trace size this is acceptable, however we might want
         // to tweak the code here if we choose to use a larger trace size or
-- 
2.43.0


From 6ac735f57c03866397123ee6517dddbedf958ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 15/17] fix: refuse whole writes that pass the end of sparse
 memory

---
 src/memory/sparse.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/memory/sparse.rs b/src/memory/sparse.rs
index c74c38a..fb6ccb9 100644
--- a/src/memory/sparse.rs
+++ b/src/memory/sparse.rs
@@ -178,6 +178,10 @@ impl<R: Register> Memory for SparseMemory<R> {
     }
 
     fn store_bytes(&mut self, addr: u64, value: &[u8]) -> Result<(), Error> {
+        if value.is_empty() {
+            return Ok(());
+        }
+        check_no_overflow(addr, value.len() as u64, self.memory_size() as u64)?;
         let mut remaining_data = value;
         let mut current_page_addr = round_page_down(addr);
         let mut current_page_offset = addr - current_page_addr;
@@ -200,6 +204,10 @@ impl<R: Register> Memory for SparseMemory<R> {
     }
 
     fn store_byte(&mut self, addr: u64, size: u64, value: u8) -> Result<(), Error> {
+        if size == 0 {
+            return Ok(());
+        }
+        check_no_overflow(addr, size, self.memory_size() as u64)?;
         let mut current_page_addr = round_page_down(addr);
         let mut current_page_offset = addr - current_page_addr;
         let mut remaining_size = size;
-- 
2.43.0


From a6e9c2dd59eccc2d591b6ce087a2ec269269f5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:48 +0000
Subject: [PATCH 16/17] fix: do not overflow when nothing is stored at the end
 of the address space

---
 src/snapshot2.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/snapshot2.rs b/src/snapshot2.rs
index 43014e4..2a4450c 100644
--- a/src/snapshot2.rs
+++ b/src/snapshot2.rs
@@ -255,7 +255,8 @@ impl<I: Clone + PartialEq, D: DataSource<I>> Snapshot2Context<I, D> {
         mut offset: u64,
     ) -> Result<(), Error> {
         let mut aligned_start = roundup(start, PAGE_SIZE);
-        let aligned_bytes = aligned_start - start;
+        // The rounding wraps around at the end of the address space.
+        let aligned_bytes = aligned_start.wrapping_sub(start);
         if length < aligned_bytes {
             return Ok(());
         }
-- 
2.43.0


From 8517ff4f618ef202fd36cd85a9dd1e13fc425779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:33 +0000
Subject: [PATCH 17/17] fix: do not overflow on a range that ends at the end of
 the address space

---
 src/memory/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memory/mod.rs b/src/memory/mod.rs
index fb5f5f4..e3a6c8a 100644
--- a/src/memory/mod.rs
+++ b/src/memory/mod.rs
@@ -118,7 +118,7 @@ pub fn get_page_indices(addr: u64, size: u64) -> (u64, u64) {
     debug_assert!(size > 0);
     let addr_end = addr.wrapping_add(size);
     let page = addr >> RISCV_PAGE_SHIFTS;
-    let page_end = (addr_end - 1) >> RISCV_PAGE_SHIFTS;
+    let page_end = addr_end.wrapping_sub(1) >> RISCV_PAGE_SHIFTS;
     (page, page_end)
 }
 
-- 
2.43.0

