import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=None)))
Z="src/z80.rs";I="src/z80/internal.rs";INS="src/z80/instructions.rs";OPS="src/z80/ops.rs";OPC="src/z80/opcodes.rs";M="src/z80/macros.rs";FL="src/z80/flavours.rs"
CORE=[Z,I,INS,OPC,M,OPS]
BUS=["Cpu::execute_next / execute_instruction against an opaque host","ordered Clock, Memory and Io calls"]
p("C01","Every instruction step is total: no panic, trap or undefined behaviour",
 "From every CPU state, every instruction stream and every host response, one step of the CPU (executing an instruction, accepting an interrupt, or idling in HALT) returns normally: it never panics, never trips an arithmetic-overflow or bounds check, and never reaches code declared unreachable. This holds in debug and release builds and for all CPU flavours.",
 ["inputs","programs"],"all 1792 opcode positions (plain, CB, ED, DD, FD, DDCB, FDCB) x every register/flag/interrupt state x every host reply x 3 flavours",
 "Unit tests run a few opcodes with a few register values; exhaustiveness of the dispatch and absence of overflow in arithmetic is about all states.",
 CORE+["src/cpu/parse.rs"],[("opcode dispatch tables must be exhaustive",OPC),("from_code decoders use unreachable_unchecked","src/cpu/parse.rs"),("Wrapping / wrapping_* arithmetic",OPS)],obs=BUS)
p("C02","Machine-cycle timing: documented clock cycles, in order, on every path",
 "Every instruction tells the host clock exactly the machine cycles of the Z80 documentation - opcode fetches, memory and I/O cycles, internal cycles and their lengths - in the documented order, on every path (condition taken or not, repeat or last iteration). The total T-state count of every instruction therefore equals the documented one.",
 ["inputs","programs"],"every opcode position, every path through it, every state and host reply, 3 flavours",
 "Existing tests sum T-states for a handful of programs; a misplaced or wrong-length cycle in an untested opcode or path is invisible to them.",
 CORE+["src/host.rs"],[("Clock::add_* calls in each instruction",I),("NO_MREQ_X* internal cycle constants",I)],obs=BUS)
p("C03","Bus discipline: each access happens at its own cycle's address and timestamp",
 "Each memory or I/O access is made at the address given to the clock for that same machine cycle and carries precisely the timestamp the clock returned for it; no timestamp is reused, swapped or invented. Opcode fetches additionally present the current interrupt-refresh register value.",
 ["inputs","programs"],"every access of every opcode path, every state, all flavours",
 "Test hosts usually ignore timestamps and the fetch-time IR value, so a swapped timestamp or address is not observed.",
 CORE,[("tsc.add_mreq/add_io/add_m1 results passed to control",I)],obs=BUS)
p("C04","Wait states requested by devices are always inserted, exactly once",
 "Whenever an I/O read, I/O write or interrupt acknowledge asks for wait states, exactly that number is added to the clock, immediately after that access and for the same bus address, and none are added when none are requested.",
 ["inputs","programs"],"every I/O instruction (IN/OUT, block I/O) and interrupt mode, every host reply",
 "No unit test returns wait states from every I/O instruction form.",
 [I],[("add_wait_states after read_io / write_io / irq_data",I)],obs=BUS)
p("C05","Break requests: reported iff the host asked or HALT ran, never lost",
 "An instruction reports a break exactly when it executed HALT, when the host returned a break from an output operation, or when the host returned a break from the RETI notification, and the reported cause carries the host's own value. The CPU state left behind is the same as if no break had been requested, so execution can simply resume.",
 ["inputs","programs"],"all output, block-output, RETI and HALT forms x every host reply, single-step, run-until-limit and mode-0 interrupt entry",
 "Tests request breaks from one or two instructions and do not compare the resumed state.",
 [Z,I,INS],[("LoopExitReason to BreakCause mapping",Z),("break $main arms",INS)],obs=BUS+["returned Result"])
p("C06","Debugging is transparent and complete",
 "Running a step with a debugger attached produces exactly the same machine state, host calls and result as running it without. Each executed instruction invokes the debugger exactly once, a bare prefix byte does not, and interrupt acknowledge reports the instruction it runs.",
 ["inputs","programs"],"every opcode position, every state and host reply, 3 flavours",
 "Tests compare text of some debug lines, never the equivalence of debugged and undebugged execution over all opcodes.",
 [M,INS,"src/z80/debug.rs"],[("cpu_debug! expansion in each mnemonic arm",M)],obs=BUS+["debugger callback"])
p("C07","Debug records describe the instruction that was executed",
 "The record handed to the debugger gives the address and exact bytes of the executed instruction, its prefix, the mnemonic and the operands of that instruction as documented, for every opcode including undocumented ones.",
 ["inputs","programs"],"every opcode position, all operand byte values, all addresses",
 "Tests check the text of a sample of instructions only.",
 [M,INS,"src/z80/debug.rs","src/cpu/debug.rs"],[("CpuDebug::debug_instruction","src/z80/debug.rs"),("cpu_debug! argument forms",M)],obs=["debugger callback payload"])
p("C08","Maskable interrupts are accepted exactly when allowed",
 "A requested maskable interrupt is accepted if and only if interrupts are enabled, the previous instruction was not EI and no index prefix is pending; otherwise no acknowledge takes place and the state is untouched. The host's interrupt line is probed only when acceptance is possible.",
 ["histories","inputs"],"every CPU state and every host answer, in single-step, run-until-limit and the explicit request entry points",
 "Tests sample a few EI/prefix sequences; the gate has to hold in every state.",
 [Z],[("is_irq_allowed / is_int_allowed",Z)],obs=BUS)
p("C09","Interrupt acknowledge follows the selected mode",
 "Accepting a maskable interrupt clears both enable flip-flops, counts one refresh, resumes past a HALT, and asks the bus for a vector once; mode 0 executes the supplied opcode, mode 1 executes RST 38h, mode 2 pushes the return address and jumps through the table word at I*256+vector, each with its documented cycles.",
 ["inputs","programs"],"all states x 3 modes x all vectors (all 256 opcodes in mode 0)",
 "Tests cover one vector per mode.",
 [I],[("irq_no_check",I)],obs=BUS)
p("C10","Non-maskable interrupts: gate and sequence",
 "A non-maskable interrupt is refused, leaving everything untouched, right after EI or after an index prefix, and otherwise is always accepted: it clears only the first enable flip-flop, keeps the second, pushes the resume address (past a HALT), continues at 0066h and uses the documented cycles.",
 ["inputs","histories"],"every CPU state",
 "Tests check a couple of states.",
 [Z,I,"src/lib.rs"],[("nmi / nmi_no_check",I)],obs=BUS)
p("C11","Interrupt enable state: EI, DI, IM, RETN and RETI",
 "EI sets both enable flip-flops and defers acceptance for exactly one instruction, DI clears both, RETN and RETI (all encodings) copy the second flip-flop into the first, IM selects the mode, and no other instruction changes these. The host's end-of-interrupt notification is issued for RETI only.",
 ["programs","inputs"],"every opcode position from every state",
 "That no other of the ~1800 opcodes touches the flip-flops or the deferral is not tested.",
 CORE,[("EI/DI/RETN/RETI arms",INS)],obs=BUS+["Cpu interrupt accessors"])
p("C12","HALT idles without advancing until an interrupt",
 "While halted, each step spends one opcode-fetch cycle at the HALT address and counts one refresh, changing nothing else and fetching nothing; an accepted interrupt or NMI saves the address after HALT. Executing HALT leaves the program counter on the HALT instruction.",
 ["histories","inputs"],"every state, all three entry points",
 "Tests exercise one halt/wake sequence.",
 [Z,I,INS],[("halt branches of execute_next, execute_with_limit",Z)],obs=BUS)
p("C13","Refresh register counts opcode fetches modulo 128",
 "Every opcode-fetch or interrupt-acknowledge cycle increments the low seven bits of R by exactly one and preserves bit 7; only loading R changes bit 7, and every way of reading R or IR reflects this.",
 ["programs","inputs"],"every opcode position incl. prefixed forms, interrupts, halt steps, all R values",
 "R is compared in few tests and not across all prefixed forms.",
 [Z,I],[("inc_r / get_r / get_ir / fetch_next_opcode",Z)],obs=["Cpu::get_r, Cpu::get_ir, IR value at fetch"])
p("C14","Index prefixes: right register, consumed once, last one wins",
 "A DD or FD prefix is remembered for exactly the next instruction, substitutes IX or IY only in instructions that use HL, H or L that way, has no effect on any other instruction than its own fetch cycle, and is replaced by a following prefix. Pending-prefix state is visible through the CPU's accessors and never survives a completed instruction.",
 ["programs","histories"],"all prefixed opcode positions from every state, including prefix chains",
 "Tests cover a selection of indexed instructions.",
 [OPC,INS,Z],[("DD|FD dispatch table",OPC)],obs=BUS+["Cpu::get_prefix"])
p("C15","Instruction results: registers and written data are those of the Z80",
 "For every opcode and every operand value, the general registers, accumulator, index registers and the bytes written to memory or ports are exactly those the Z80 defines, and no register other than the documented destinations changes.",
 ["inputs","programs"],"every opcode position, all register and operand values, 3 flavours",
 "The suite samples operand values (some 8-bit ALU ops are swept, most opcodes are not).",
 CORE,[("run_mnemonic! arms",INS),("ALU functions",OPS)],obs=BUS+["Cpu register accessors"])
p("C16","Flags are exact, including undocumented bits 3 and 5",
 "For every opcode and operand value all eight flag bits after the instruction are those of the Z80 for the selected CPU flavour, and instructions documented not to affect flags leave every bit unchanged.",
 ["inputs","programs"],"every opcode position, all operand values and previous flags, 3 flavours",
 "Tests check flags for sampled operands; the flag tables cover thousands of (opcode, operand, flag) combinations.",
 [OPS,INS,I,"src/cpu/flags.rs"],[("ops::*",OPS),("CpuFlags masks","src/cpu/flags.rs")],obs=["Cpu::get_flags"])
p("C17","MEMPTR follows its documented rules",
 "The internal address latch MEMPTR takes its documented value after every instruction that sets it, per flavour, and is unchanged by all others, so the bits of it that BIT n,(HL) exposes are right.",
 ["inputs","programs"],"every opcode position, all operands, 3 flavours",
 "MEMPTR is looked at for a minority of opcodes.",
 [I,INS,M,FL],[("memptr.set16 sites",I),("Flavour::memptr_mix",FL)],obs=["get_memptr"])
p("C18","Flavour tracking: flag-modification history drives SCF/CCF",
 "The record of whether the previous instruction modified flags is shifted once per instruction and set exactly by the instructions that write flags through arithmetic or logic, and determines bits 3 and 5 after SCF and CCF in the flavours that model it. Flavour-specific behaviours (OUT (C) constant, interrupt-time LD A,I quirk, MEMPTR mixing) apply only to their own flavour.",
 ["histories","programs"],"all opcode positions x both history bits x 3 flavours",
 "Unit tests of the flavour hooks do not show each opcode calls the right hook.",
 [FL,I,INS],[("Flavour::begin_instruction / flags_modified / get_q",FL)],obs=["serialized flavour state","Cpu::get_flags"])
p("C19","The runtime-selectable CPU behaves as the flavour it holds",
 "Every operation of the runtime-selectable CPU has the same effect, result and host interaction as the same operation on the concrete CPU it holds, changes no other aspect, and keeps the flavour; tags and constructors agree with the variant.",
 ["inputs","histories"],"all trait methods x 3 variants x all arguments and states",
 "Tests touch few of the ~45 forwarded methods.",
 ["src/z80/any.rs"],[("cpu_dispatch_any! forwarders","src/z80/any.rs")],obs=["Cpu trait on Z80Any"])
p("C20","Changing flavour preserves the machine state",
 "Converting a CPU between flavours, directly or through the runtime-selectable type, preserves every register, latch, flip-flop and pending condition, and preserves the flag-modification history whenever both flavours model it (otherwise it starts cleared).",
 ["inputs"],"all states x all ordered flavour pairs",
 "The test converts default (all-zero) CPUs only.",
 [Z,FL,"src/z80/any.rs"],[("into_flavour / From impls",Z)],obs=["accessors, serialization"])
p("C21","Saved CPU state restores to an equal CPU",
 "Serializing any CPU, register pair or clock counter and deserializing the result yields an equal value, in self-describing and in compact formats, for concrete and runtime-selectable CPUs; the fields written and the fields read agree in name, order and number. Omitted optional fields take their documented defaults and missing mandatory or duplicate fields are errors.",
 ["inputs","histories"],"all states x formats (map, sequence) x flavours",
 "Tests round-trip a few hand-picked states.",
 ["src/z80/serde.rs","src/cpu/registers.rs",FL],[("Serialize / Visitor tables","src/z80/serde.rs")],obs=["serde data model events"])
p("C22","Run-until-limit equals repeated single steps",
 "Running until a time limit performs exactly the same host accesses and state changes as single-stepping in a loop that stops when the limit has passed, with the same interrupt polling points, EI deferral, HALT idling and break handling; it executes nothing once the limit is already past.",
 ["histories","inputs","programs"],"every start state, host behaviour and limit; per-instruction induction over the run loop",
 "Tests run two or three short programs with the limit interface.",
 [Z],[("execute_with_limit / execute_with_limit_loop",Z)],obs=BUS)
p("C23","Accessors read and write exactly the state they name",
 "Each setter or in-place operation of the CPU interface changes only what it names so that the matching getters return the value written, each getter is free of side effects, exchanges swap exactly the two register sets they name, and reset puts every element into its documented state. Two CPUs (their refresh registers normalized) compare equal exactly when all their state is equal, and a clone equals its original.",
 ["inputs"],"all accessor methods, all arguments, all states",
 "Tests check a few accessors from a default CPU.",
 [Z,"src/cpu/registers.rs","src/cpu.rs"],[("impl Cpu for Z80",Z),("RegisterPair","src/cpu/registers.rs")],obs=["Cpu accessors"])
p("C24","Clock counter adds documented cycle lengths with the right timestamps",
 "The supplied clock counter advances by exactly the documented number of T-states for every cycle kind, returns the documented sampling timestamp, wraps around instead of trapping, and its limit test is exact; default host methods return their documented idle values.",
 ["inputs"],"all counter values and arguments for all supported counter widths",
 "Tests use one counter type near zero.",
 ["src/host.rs"],[("impl Clock for TsCounter","src/host.rs"),("Io/Memory default methods","src/host.rs")],obs=["Clock methods"])
p("C25","Host wrapper macros forward every call faithfully",
 "A host type built with the forwarding macros passes every clock, memory and I/O operation unchanged - same arguments, once - to the wrapped object and returns its result unchanged.",
 ["inputs","programs"],"every method of the forwarded traits, all arguments",
 "Doc tests only check that the macros compile.",
 ["src/macros.rs"],[("forward_host_* macros","src/macros.rs")],obs=["wrapped trait methods"])
p("C26","The disassembler always progresses and reports only complete instructions",
 "For every memory chunk and start address the disassembler terminates without panicking, visits instructions in address order with each starting where the previous one ended (prefix bytes that were overridden are skipped), reports only instructions lying entirely inside the chunk, and stops at once when the callback fails.",
 ["inputs"],"all byte slices and start addresses, all flavours",
 "Tests disassemble two short sequences.",
 ["src/disasm.rs"],[("disasm_memory cursor loop","src/disasm.rs")],obs=["callback records"])
p("C27","Operand and opcode encodings are consistent",
 "Decoding an operand field and re-encoding it gives the same field for every code, condition codes are satisfied by exactly the documented flag values, and the published opcode constants and builders denote the opcodes the CPU actually executes under those names.",
 ["inputs"],"all field codes, all flag values, all published constants",
 "Tests cover some enums for some values.",
 ["src/cpu/parse.rs","src/lib.rs"],[("from_code / to_code / is_satisfied","src/cpu/parse.rs"),("opconsts","src/lib.rs")],obs=["public parse API"])
p("C28","Formatting a debug record never fails or truncates",
 "Every debug record the CPU can produce can be formatted in every supported style (decimal, hexadecimal, upper case, alternate; the record or its arguments, with or without a field width) without panicking or reporting an error of its own, and the text shows every field completely, in the documented form. The disassembler's text output writes one such line per instruction and passes on the sink's error.",
 ["inputs","programs"],"all mnemonics x operand forms x operand values x 3 format styles",
 "Tests format a sample of records; the overflow needs the longest operand.",
 ["src/cpu/debug.rs"],[("fixed-capacity ArrayString pads","src/cpu/debug.rs")],obs=["Display/LowerHex/UpperHex output"])
p("C29","Control flow: PC, SP and stack bytes of jumps, calls, returns and restarts",
 "After every instruction PC addresses the next instruction, or the documented target when a jump, call, return, restart or repeat is taken; conditions are evaluated on the flags before the instruction; SP and the bytes pushed and popped (order, addresses, wrap-around) are as documented.",
 ["inputs","programs"],"every opcode position, all operands, PC/SP wrap-around, 3 flavours",
 "Tests cover a few jumps without wrap-around.",
 CORE,[("instr_jp/jr/call/ret arms",INS),("push2/pop16",I)],obs=BUS+["Cpu::get_pc, get_sp"])
p("C30","Repeating block instructions are interruptible, one iteration at a time",
 "Each repeat of a block transfer, search, input or output is a separate instruction: it performs one iteration, steps its pointers and counter once, leaves PC on the instruction while more iterations remain, and continues after it otherwise, so an interrupt between iterations loses nothing.",
 ["histories","inputs"],"all 16 block instructions, all counters and pointers incl. wrap-around",
 "Tests run short blocks without interrupts.",
 [I,INS],[("block_transfer/search/in/out",I)],obs=BUS)
p("C31","Flag helper operations compute their documented masks",
 "Every public flag helper returns exactly the documented flag bits for every argument and sets or clears no other flag.",
 ["inputs"],"all argument values of all helpers",
 "Covered for sampled values.",
 ["src/cpu/flags.rs"],[("CpuFlags helpers","src/cpu/flags.rs")],obs=["CpuFlags API"])
p("C32","The crate builds in every advertised feature combination",
 "With any subset of the crate's features (standard library, serialization) enabled, the crate compiles, and without the standard-library feature it does not require the standard library.",
 ["configurations"],"all 4 subsets of the features",
 "Tests are only ever built with default features.",
 ["Cargo.toml","src/lib.rs","src/z80/serde.rs","src/cpu/registers.rs"],[("cfg(feature) gates","src/lib.rs")],obs=["compilation result"])
p("C33","Register pairs: the 16-bit value and its halves never disagree",
 "After any operation on a register pair, the 16-bit value, the two halves and the halves reached in place all show the same contents, and these are the documented result of the operation: setting one half leaves the other alone, counting and adding wrap around at 65536. An operation given by the caller is applied exactly once, to the current contents. Two pairs are equal exactly when their values are, and equal pairs hash alike.",
 ["inputs"],"every value of a pair x every argument, every public operation and conversion",
 "A handful of values is tested; carries between halves and the in-place views are not.",
 ["src/cpu/registers.rs"],[("RegisterPair accessors, arithmetic and conversions","src/cpu/registers.rs")],obs=["RegisterPair API"])
p("C34","Textual self-descriptions show the actual state and cause",
 "The debug text of a CPU shows every register, flip-flop and latch under its name with its current value, in compact and in pretty form, and that of a runtime-selectable CPU also names the flavour it holds. Flavour tags, the displayed text of a runtime-selectable CPU and the text of a break cause, formatted or converted, agree with one another and identify the flavour or the cause, and none of them fails or panics unless the sink refuses.",
 ["inputs"],"every CPU state of the three flavours and of the runtime-selectable CPU, every break cause with any payload, sinks that accept or refuse",
 "Debug and Display output is not tested at all.",
 ["src/z80/debug.rs","src/z80/any.rs","src/z80/flavours.rs","src/host.rs"],[("fmt::Debug for Z80","src/z80/debug.rs"),("fmt::Display for Z80Any","src/z80/any.rs"),("Display and From for BreakCause","src/host.rs")],obs=["core::fmt output"])
p("C35","Any implementation of the Flavour trait is consulted as documented",
 "A CPU with a flavour defined outside the crate follows it, whatever it answers, exactly where the trait says: the constant OUT (C),(HL) puts out, the MEMPTR value made of A and the low half of the address, bits 3 and 5 of SCF and CCF, early polling of the interrupt line in LD A,I and LD A,R, and the calls that begin an instruction or interrupt and report modified flags; nothing else depends on the flavour. Construction, reset, comparison, cloning and conversions between flavours and to the runtime-selectable CPU go through the flavour's own functions and change nothing else.",
 ["inputs"],"every CPU state and host answer, a flavour whose answers are injective functions of their arguments and of unknown values, both values of the early-reset constant, every opcode position, interrupts, NMI, HALT and run-until-limit",
 "Only the three supplied flavours are ever run; a core that special-cases their values passes every test.",
 ["src/z80/flavours.rs","src/z80/internal.rs","src/z80/instructions.rs","src/z80/any.rs"],[("Flavour","src/z80/flavours.rs"),("memptr_mix, CONSTANT_OUT_DATA and ACCEPTING_INT_RESETS_IFF2_EARLY uses","src/z80/internal.rs"),("Z80::into_flavour, Cpu::reset","src/z80.rs")],obs=["host calls","registers","flavour field"])
R="examples/ral1243/src/"
p("C36","Example computer: every bus access reaches exactly the device it is for",
 "In the example computer the memory control port is answered by the memory and every other port, interrupt poll, acknowledge and return from interrupt by the first device of the daisy chain concerned, with the same address, data and time and the same answer handed back; every opcode fetch is announced to the devices once, at its time, and resets, ends of frames and passing seconds reach every device once. The end of the chain answers as an open bus and never interrupts.",
 ["inputs"],"every port, datum, time and answer of the next device, any port mask and any PIO port configuration",
 "The example computer's tests cover one memory function only.",
 [R+"bus.rs",R+"pio.rs"],[("Bus, Terminator",R+"bus.rs"),("Pio::with_port_bits, Io for Pio",R+"pio.rs")],obs=["calls of the device behind","returned values"])
p("C37","Example computer: PIO ports transfer each byte once and interrupt in order",
 "Each port of the parallel interface follows its documented modes for every sequence of control words, data, reads, strobes and acknowledges: a byte written is offered to the device once and a byte received is read until replaced; interrupts are requested only when enabled, port A before port B, the programmed vector is put out, and nothing further is requested from here or from behind until the return from interrupt. A reset forgets all of it.",
 ["histories","inputs"],"up to 4 arbitrary operations (5 for interrupts) on both ports with any data, any device answers and the two supplied devices",
 "No test uses the parallel interface.",
 [R+"pio.rs",R+"pio_device.rs"],[("Pio",R+"pio.rs"),("PioInput, PioOutput",R+"pio_device.rs")],obs=["Io and PioDevice calls"])
p("C38","Example computer: CTC channels count every clock period and edge exactly once",
 "Each channel of the counter/timer holds the value reached by counting every T-state (or every matching edge) since its start exactly once, however rarely the program looks, restarts from its time constant at zero, pulses its output at that very T-state, and requests an interrupt if enabled, neither earlier nor later; channel 0 comes before 1, 2 and 3, each puts out its own vector, one is served at a time. Control words, resets and passing seconds change what they document only, and clock lines hand every edge on once, in order.",
 ["histories","inputs","schedules"],"all 4 channels, every control word, time constants 1, 2, 3 and 256, both prescalers, up to 3 operations up to 15 T-states apart with edges at any time between",
 "No test uses the counter/timer.",
 [R+"ctc.rs",R+"ctc_trigger.rs"],[("Ctc, Channel",R+"ctc.rs"),("CtcActive, CtcPassive",R+"ctc_trigger.rs")],obs=["Io calls","CtcTrigger calls","BusDevice calls"])
p("C39","Example computer: emulated time is neither lost nor counted twice",
 "The clock advances by the documented length of each machine cycle and by the wait states asked for, and a second is taken off only from more than two. Frames follow each other at multiples of the frame length however late the last instruction of each ends, the length reported is the time that passed, a second taken off the clock is taken off the frame limit and announced to the devices in the same step, and halting does not end a frame.",
 ["histories","inputs"],"every clock value; up to 4 frames from a start or restart, each with any overrun up to 59 T-states and with or without a halt",
 "No test runs frames.",
 [R+"clock.rs",R+"runner.rs"],[("TClock",R+"clock.rs"),("FrameRunner",R+"runner.rs")],obs=["Clock calls","BusDevice calls","returned durations"])
p("C40","Example computer: the memory map and its unchecked reads agree",
 "Every address of the example computer shows the ROM, the RAM behind it while code runs in the ROM, the selected cartridge otherwise, the user RAM as far as it is fitted, and 0xFF where nothing is; writes reach RAM that is switched in only. Reading a word equals reading its two bytes everywhere, also across banks and around the top, no read or write leaves the memory it is meant for, and removing the cartridges leaves nothing dangling.",
 ["inputs","histories"],"8 addresses around each bank and RAM border x fetches x writes x cartridges selected, fitted and removed x RAM sizes 0, 17 and 48 KiB",
 "One test walks the map with the RAM switched in; cartridges, bank changes and removal are not tested.",
 [R+"memory.rs"],[("Memory",R+"memory.rs")],obs=["Memory and MemoryControl calls"])
p("C41","Example computer: the runner thread obeys its messages and keeps real time",
 "The runner thread ends once told to or once nobody can tell it any more, carries out resets and non-maskable interrupts in the order received and none twice, and on average runs frames at their nominal rate.",
 ["schedules"],"every schedule of the two threads, every speed of the machine",
 "No test starts the thread.",
 [R+"thread.rs"],[("Ral1243::run, debug",R+"thread.rs")],obs=["messages","elapsed time"])
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    assert x['statement'].count('. ')<=2,x['id']
open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/../properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
