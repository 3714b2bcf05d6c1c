import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Every engine runs every program to the same, specified result",
 "For every program, machine version and instruction-set selection, all execution engines (interpreter on flat or sparse memory, trace machine, assembly machine with every trace decoder) produce the same outcome: exit code or error, registers, program counter, memory, host-call sequence and cycle count at every host call, and it is the outcome the RISC-V specification (plus the documented version quirks) prescribes. The outcome does not depend on which instructions were decoded, cached, fused or evicted before, nor on how execution was sliced.",
 ["programs","inputs","schedules","configurations"],
 "all guest programs, arguments, versions 0/1/2, ISA subsets, engines and decoders, trace-table sizes, eviction schedules and run/step slicings",
 "The tests run a few dozen fixed binaries and a handful of unit vectors per instruction; they cannot cover programs x cache states x slicings, and mostly compare two engines on one program from a cold start.",
 ["src/machine/mod.rs","src/machine/trace.rs","src/machine/asm/mod.rs","src/machine/asm/traces.rs","src/machine/asm/execute_x64.S","src/instructions/execute.rs","src/decoder.rs"],
 [("trace table lookup and refill","src/machine/asm/traces.rs, src/machine/trace.rs"),("shared instruction semantics","src/instructions/execute.rs"),("assembly semantics","src/machine/asm/execute_x64.S"),("instruction cache and macro-op fusion","src/decoder.rs")],
 [("trace table","decoded code cached per slot","src/machine/asm/traces.rs")],["host calls","end of run","every pause or budget stop"])
p("C02","Pausing and resuming never changes what a program computes",
 "If a run is interrupted by any number of pause requests at any instants and the machine is simply run again each time, the final result is exactly that of an uninterrupted run: same outcome, registers, memory, cycle count and the same host calls with the same arguments, each made exactly once.",
 ["schedules","programs","configurations"],
 "all programs, engines, decoders and all finite sets of instants at which a pause is requested (between any two instructions, inside host calls and breakpoints, before the run)",
 "The pause tests interrupt one looping program from a thread at whatever instant the OS picks; they neither choose the instant nor compare the final state with an unpaused run.",
 ["src/machine/mod.rs","src/machine/trace.rs","src/machine/asm/mod.rs","src/machine/asm/execute_x64.S"],
 [("pause check in the run loops","src/machine/mod.rs run_with_decoder, src/machine/trace.rs"),("pause check at trace switch","src/machine/asm/execute_x64.S prepare_trace")],
 [("pause flag","one shared byte","src/machine/mod.rs Pause")],["return of run","host calls"])
p("C03","A pause request is honoured promptly, once, and is never lost or invented",
 "A pause requested at any instant through any handle sharing the machine's pause signal makes the run stop with the pause outcome at the latest at the next jump or taken branch; a request that arrives before a run, or too late in it, stays pending for the next run of any machine sharing the signal. Each stop consumes exactly the pending request, and a run that nobody asked to pause never reports a pause.",
 ["schedules","programs","histories"],
 "all instants of request, all engines, several machines and handles sharing or swapping one signal, any history of requests and runs",
 "Tests check that some pause eventually stops one infinite loop; latency, loss, spurious stops and shared handles are schedule properties they do not control.",
 ["src/machine/mod.rs","src/machine/trace.rs","src/machine/asm/mod.rs","src/machine/asm/execute_x64.S"],
 [("Pause handle","src/machine/mod.rs Pause"),("pause check per control transfer","src/machine/asm/execute_x64.S prepare_trace")],
 [("pause flag","pending request","src/machine/mod.rs Pause")],["return of run","step count between request and stop"])
p("C04","The cycle limit is exact, sound and restartable",
 "A run succeeds if and only if the program's total cost fits the limit; the reported cycles never exceed the limit after a successful run or host call, exceeding it is reported as such, and arithmetic overflow of the cost is reported as overflow rather than wrapping (an engine that charges a block of straight-line code at once may refuse to enter a block it cannot pay for, even one that would fault half way). When a run stops on the limit, raising the limit and running again continues to exactly the result and total an unlimited run gives, whatever the sequence of limits and whatever cost function is used.",
 ["schedules","programs","configurations","inputs"],
 "all programs, per-instruction cost functions (including huge ones), engines, host-added cycles and sequences of increasing limits",
 "Tests check a few totals and one or two limits on fixed programs; restart after exhaustion at every point and extreme cost functions are not reachable by samples.",
 ["src/machine/mod.rs","src/machine/asm/traces.rs","src/machine/asm/execute_x64.S","src/machine/asm/mod.rs","src/machine/trace.rs"],
 [("add_cycles","src/machine/mod.rs SupportMachine"),("per-trace charging","src/machine/asm/execute_x64.S, src/machine/asm/traces.rs")],
 [("cycles / max_cycles","consumed and allowed cost","src/machine/mod.rs, definitions/src/asm.rs")],["return of run","host calls"])
p("C05","A full snapshot restores a machine that continues identically",
 "Whenever a run has returned control to the host (pause, cycle limit, suspending or failing host call), taking a full snapshot does not disturb the machine, and a crash followed by restoring that snapshot (serialised and read back) into a fresh machine - of any engine that supports the same guest - continues to the same result as the uninterrupted run: same outcome, registers, memory, load reservation, page protections (unless the host changed those of a page that is not dirty) and later host calls. Any chain of such crashes is equivalent to none. A snapshot of the machine just restored equals the one it was restored from.",
 ["crash_points","programs","histories","configurations"],
 "all programs, snapshot points (pause, cycle limit, yielding or failing host call), chains of crash and restore, engine changes, 32- and 64-bit guests",
 "The resume tests cut one or two fixed programs at a few cycle counts on 64-bit engines and compare the exit code and cycles only.",
 ["src/snapshot.rs","src/memory/mod.rs","src/machine/mod.rs","src/machine/asm/mod.rs"],
 [("make_snapshot / resume","src/snapshot.rs"),("dirty flag decides which pages are saved","src/memory/mod.rs FLAG_DIRTY")],
 [("Snapshot","durable state","src/snapshot.rs")],["restored machine before and after running"])
p("C06","A data-source snapshot restores a machine that continues identically",
 "The same crash-and-restore equivalence, including the consumed and maximum cycles, holds for snapshots that refer to pages of an immutable data source instead of storing them, however guest writes, host writes, program loading and partial or overlapping data-source loads are interleaved with the snapshots. A snapshot of the machine just restored equals the one it was restored from, so what was kept by reference still is.",
 ["crash_points","programs","histories"],
 "all programs, data sources, interleavings of tracked loads with guest and host writes, snapshot points and chains of restores",
 "The tests use fixed programs and a few load patterns; overlap of tracked ranges with later writes at arbitrary points and chained restores are not sampled systematically.",
 ["src/snapshot2.rs","src/elf.rs","src/memory/mod.rs"],
 [("page tracking","src/snapshot2.rs track_pages/untrack_pages"),("make_snapshot / resume","src/snapshot2.rs")],
 [("Snapshot2Context.pages","page -> (id, offset, flag)","src/snapshot2.rs"),("dirty flag","page must be stored by value","src/memory/mod.rs")],["restored machine before and after running","snapshot contents"])
p("C07","Restoring from damaged or missing data fails cleanly",
 "Restoring a snapshot that is torn, corrupted, of another version or refers to data the source no longer provides (or provides short) either reports an error or yields a machine that holds exactly what the snapshot says; it never panics, never touches memory outside the guest and never silently drops declared pages. Data-source failures during a run are reported to the host-call handler and leave the guest's memory and the tracking as they were.",
 ["fault_sequences","crash_points","inputs"],
 "all byte- and field-level damage to a snapshot, version mismatches, failing or short data-source reads at any call, and any program state before",
 "Tests restore only well-formed snapshots from a healthy source, plus one version mismatch.",
 ["src/snapshot.rs","src/snapshot2.rs"],
 [("version and alignment checks","src/snapshot.rs resume, src/snapshot2.rs resume"),("SnapshotDataLoadError","src/snapshot2.rs load_data")],
 [("Snapshot/Snapshot2","durable state that may be damaged","src/snapshot.rs, src/snapshot2.rs")],["return of resume","memory after resume"])
p("C08","Executable pages are never written, writable pages never executed",
 "At every moment of every run, a guest store, atomic, or host store to a page that is not writable is refused with a permission error and changes no byte, an instruction fetch from a page that is not executable is refused (code already decoded stays valid until the machine is reset), and re-initialising a frozen page is refused without changing anything. This holds however guest accesses, host accesses, host changes of page flags, errors followed by re-running, resets and restores are interleaved.",
 ["histories","programs","schedules"],
 "all interleavings of guest loads/stores/fetches (any alignment, crossing pages) with host memory and flag operations, refused accesses followed by continued runs, on every engine",
 "Tests check single accesses from a cold machine; the engines keep last-page caches whose staleness depends on the access history.",
 ["src/memory/wxorx.rs","src/memory/mod.rs","src/machine/asm/mod.rs","src/machine/asm/execute_x64.S","src/decoder.rs"],
 [("check_permission","src/memory/mod.rs, src/machine/asm/mod.rs"),("CHECK_WRITE","src/machine/asm/execute_x64.S")],
 [("page flags","executable / writable / frozen / dirty bits","src/memory/*.rs"),("last_write_page","assembly store cache","definitions/src/asm.rs")],["after every access","host operations"])
p("C09","Every modified page is reported dirty",
 "After the host clears the dirty mark of any pages at any point, every page whose content is subsequently written by a guest store, an atomic, a host store or page initialisation is marked dirty again, on every engine and whatever accesses preceded the clearing; dirty marks never affect what the guest computes.",
 ["histories","programs"],
 "all interleavings of guest and host writes (including page- and frame-crossing ones) with host clearing of dirty marks",
 "Tests check the mark after a few single stores; caches of recently written pages make it depend on the history.",
 ["src/memory/flat.rs","src/memory/sparse.rs","src/memory/wxorx.rs","src/machine/asm/mod.rs","src/machine/asm/execute_x64.S"],
 [("set_dirty on store","src/memory/flat.rs, src/memory/sparse.rs"),("CHECK_WRITE","src/machine/asm/execute_x64.S"),("cache invalidation in set_flag/clear_flag","src/machine/asm/mod.rs")],
 [("FLAG_DIRTY","page written since last cleared","src/memory/mod.rs"),("last_write_page","assembly store cache","definitions/src/asm.rs")],["host observation points"])
p("C10","Resetting a machine and loading another program leaves no trace of the old one",
 "When a host call resets the running machine and loads another program (any number of times, at any point, including after a failed load), the rest of the run is exactly a fresh machine's run of that program: no decoded code, register, memory content, page protection, reservation or cycle from before remains visible. A reset between runs behaves the same.",
 ["histories","programs","schedules"],
 "all sequences of programs executed in place of each other on one machine, with code at equal addresses, any cache state before and any engine",
 "One exec-style test replaces one program by another; residue depends on which caches were warm and on address collisions.",
 ["src/machine/mod.rs","src/machine/trace.rs","src/machine/asm/mod.rs","src/machine/asm/traces.rs","src/decoder.rs","src/memory/flat.rs","src/memory/sparse.rs"],
 [("reset and reset_signal","src/machine/mod.rs, src/machine/asm/mod.rs"),("cache clearing on reset","src/machine/trace.rs, src/machine/asm/traces.rs, src/decoder.rs")],
 [("reset_signal","caches must be dropped","src/machine/mod.rs"),("trace tables","decoded code","src/machine/asm/traces.rs")],["host calls after the reset","end of run"])
p("C11","Host calls are delivered exactly once, in order, with a consistent machine",
 "Every guest host call reaches the registered handlers in registration order until one accepts it, exactly once, with registers, memory, program counter and consumed cycles exact at that instruction; what the handler changes is what the guest sees next, an unaccepted call and a handler error stop the run with that error, and running again after a handler error continues right after the call. Breakpoints reach the debugger the same way, and initialisation reaches every handler once per program load.",
 ["histories","programs","schedules","fault_sequences"],
 "all programs, handler stacks and decisions (accept, decline, fail, yield, interrupt, change registers/memory/limits), engines and continuation schedules",
 "Tests use one or two fixed handlers that always succeed on one engine each.",
 ["src/machine/mod.rs","src/machine/asm/mod.rs","src/machine/trace.rs","src/instructions/execute.rs","src/syscalls.rs","src/debugger.rs"],
 [("ecall / ebreak dispatch","src/machine/mod.rs Machine for DefaultMachine"),("commit of the program counter around host calls","src/machine/asm/mod.rs, src/instructions/execute.rs")],
 [("pc / next_pc","where the guest continues","src/machine/mod.rs")],["inside handlers","return of run"])
p("C12","Concurrent machines are isolated and independent of scheduling",
 "When several machines run interleaved in one process in any time slicing (by pause, limit or yielding host call) and communicate only through host calls, each machine's result, cycles and host-call history depend only on its program and the data it received, never on the schedule, on other machines' engines, memories or caches, or on machines created, dropped, crashed or restored meanwhile.",
 ["schedules","programs","crash_points","configurations"],
 "all interleavings of any number of machines on any mix of engines, with creation, destruction, crash and restore of machines in between",
 "Every existing test runs machines one after another and observes one at a time.",
 ["src/machine/mod.rs","src/machine/asm/mod.rs","src/machine/asm/traces.rs","src/machine/trace.rs","src/decoder.rs","definitions/src/asm.rs"],
 [("per-machine state only","src/machine/mod.rs, definitions/src/asm.rs"),("per-machine decoders","src/machine/asm/mod.rs")],
 None,["end of each machine","host calls"])
p("C13","Guest memory starts as zero; nothing of the host's memory is visible",
 "Every byte of guest memory that neither the program image, the arguments, the guest nor a host call has written reads as zero, on every engine, at every access width, alignment and order of first accesses, in a fresh, reset or restored machine, whatever the host's allocator returned; in the randomised-memory debugging mode the contents are a function of the configured seed only.",
 ["histories","programs","configurations","fault_sequences"],
 "all orders and shapes of first accesses by guest and host over all memory sizes, all image layouts, and all contents of recycled host memory",
 "Test processes get freshly zeroed memory from the operating system, so a missing initialisation is invisible to them.",
 ["src/machine/asm/mod.rs","src/machine/asm/execute_x64.S","src/memory/flat.rs","src/memory/sparse.rs","definitions/src/asm.rs"],
 [("lazy zeroing of memory frames","src/machine/asm/mod.rs inited_memory/check_memory/prepare_memory, src/machine/asm/execute_x64.S"),("zeroed pages","src/memory/sparse.rs, src/memory/flat.rs")],
 [("frames","which 256 KB frames are initialised","definitions/src/asm.rs")],["guest loads","host loads"])
p("C14","Running out of host memory never yields a broken machine",
 "If any single host allocation fails while a machine or decoder is created, a program is loaded, run, snapshotted or restored, the process stops through the allocator's abort path or the operation reports an error; it never continues with a machine whose memory is missing, and never crashes by touching invalid memory. Every block of host memory is given back to the allocator with the size and alignment it was obtained with.",
 ["fault_sequences","configurations"],
 "every single allocation of every operation, on every engine and memory size",
 "Tests never make an allocation fail.",
 ["definitions/src/asm.rs","src/machine/asm/traces.rs","src/memory/flat.rs","src/memory/sparse.rs"],
 [("raw allocations","definitions/src/asm.rs new_with_memory, src/machine/asm/traces.rs")],
 None,["process end","machine construction"])
p("C15","A damaged program image is refused or loaded exactly as declared, never worse",
 "For every byte string offered as a program image - truncated, torn, bit-flipped or adversarial - loading returns an error or loads precisely the segments it declares: it never panics, never writes guest memory outside the declared segments and the stack, never produces a page that is both writable and executable, and never loads segments beyond the memory limit. All engines take the same decision and reach the same memory.",
 ["inputs","fault_sequences","configurations"],
 "all damage to program images, machine versions, memory sizes and engines",
 "Tests load a fixed set of files.",
 ["src/elf.rs","src/machine/mod.rs","src/memory/wxorx.rs","src/machine/asm/mod.rs"],
 [("parse_elf checks","src/elf.rs"),("init_pages checks","src/memory/wxorx.rs, src/machine/asm/mod.rs")],
 None,["return of load_program","memory and flags after it"])
p("C16","No guest can escape: every run ends in a result or error within its budget",
 "For every guest code and data, valid or garbage, and every schedule of interruptions, a run under a finite cycle limit returns a result or an error, never panics, hangs or crashes the host, and neither reads nor writes host memory outside the guest's own memory; afterwards the machine can be reset and behaves as new.",
 ["programs","inputs","schedules","fault_sequences"],
 "all byte sequences as code, all register contents and addresses, all engines and interruption schedules",
 "Tests run well-behaved programs and a few that fault once; hostile code over all addresses and engine states needs search.",
 ["src/machine/asm/execute_x64.S","src/machine/asm/mod.rs","src/memory/wxorx.rs","src/memory/flat.rs","src/memory/sparse.rs","src/decoder.rs"],
 [("bounds checks on every access","src/machine/asm/execute_x64.S CHECK_*, src/memory/mod.rs check_no_overflow"),("instruction decoding","src/decoder.rs")],
 None,["return of run","canaries around guest memory"])
p("C17","The published cost table prices every instruction as documented",
 "The default cost function returns the documented cost for each instruction and at least one for every instruction.",
 ["inputs"],
 "all instruction encodings",
 "A unit test samples a few opcodes; but this is a pure function of one word, with no schedule, time, I/O or fault to simulate.",
 ["src/cost_model.rs"],[("estimate_cycles","src/cost_model.rs")])
p("C18","Guest memory holds exactly what was last written to it, whatever its size",
 "For every memory implementation and memory size, every read of guest memory - guest load, atomic, fetch of fresh code, host read of any length - returns for each byte what the guest, the host, page initialisation or a restore last wrote there; a write changes the bytes it names and no others, and an access that does not lie within memory is refused without effect. None of this depends on how many pages are in use, on the page, frame or 4 GiB boundaries an access meets, or on what was accessed before.",
 ["inputs","histories","configurations"],
 "all interleavings of guest and host accesses over all addresses, memory sizes from one frame to many GiB, all engines",
 "Tests use the default 4 MiB and touch few pages; caches of the last page and frame, page tables and frame bookkeeping depend on the whole access history and on the size.",
 ["src/memory/sparse.rs","src/memory/flat.rs","src/memory/wxorx.rs","src/machine/asm/mod.rs","src/machine/asm/execute_x64.S"],
 [("page table of sparse memory","src/memory/sparse.rs fetch_page"),("frame and page caches","src/machine/asm/execute_x64.S CHECK_READ, CHECK_WRITE"),("host accesses","src/machine/asm/mod.rs impl Memory for Box<AsmCoreMachine>")],
 None,["answers of every access","memory afterwards"])
p("C19","A program starts with its image and its arguments, and nothing else",
 "After a program is loaded, directly or from metadata parsed before, every engine starts at the image's entry with every byte of its segments in place (later segments over earlier ones, zero where a segment has no file data), in a fresh or reset machine with all registers zero but the stack pointer, and the number of bytes used is reported. The stack pointer lies in the stack's quarter of memory and points to argc, followed by pointers to zero-terminated copies of the arguments in order and (from version 1 on, where it is 16-byte aligned) a null pointer; arguments that do not fit are refused.",
 ["inputs","histories","configurations"],
 "all images and argument lists, machine versions, engines and what was loaded before",
 "Tests load a few fixed programs with a few arguments; layouts that overlap, share pages, end at memory's end or fill the stack to its last byte, after other programs, are not among them.",
 ["src/elf.rs","src/machine/mod.rs"],
 [("load_binary, initialize_stack","src/machine/mod.rs"),("parse_elf","src/elf.rs"),("init_pages","src/memory/wxorx.rs, src/machine/asm/mod.rs")],
 None,["return of load_program","registers, memory and flags after it"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert x['statement'].count('. ')<3,x['id']
print(len(P))
