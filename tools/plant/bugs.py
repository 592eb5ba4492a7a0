"""Planted defects: (id, property, needs, what_it_breaks, edits, demo body)."""
Z, I, N, O = 'src/z80.rs', 'src/z80/internal.rs', 'src/z80/instructions.rs', 'src/z80/ops.rs'
B = []
def bug(id, prop, needs, breaks, edits, main, deps=''):
    B.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, main=main, deps=deps))

bug('c22-limit-prefix-irq', 'C22', 'an interrupt request that becomes active between an index prefix and its instruction while running with a limit',
    'execute_with_limit accepts the interrupt after the prefix, splitting the instruction, while single steps do not',
    [(Z, 'if is_int_allowed(prefix, false) && self.iff1 && control.is_irq(tsc.as_timestamp()) {\n                    break \'main LoopExitReason::Irq\n                }\n            };\n\n            if let',
         'if self.iff1 && control.is_irq(tsc.as_timestamp()) {\n                    break \'main LoopExitReason::Irq\n                }\n            };\n\n            if let')],
    '''fn rig() -> Rig<Z80NMOS> {
    let mut r = Rig::<Z80NMOS>::new(0x100, &[0xDD, 0x21, 0x34, 0x12, 0, 0, 0]);
    r.cpu.set_im(InterruptMode::Mode1); r.cpu.set_iffs(true, true); r.host.irq_from = 3; r }
fn main() {
    let mut a = rig(); a.clk.t = 0; a.host.irq_from = 4;
    a.limit(30).unwrap();
    let mut b = rig(); b.host.irq_from = 4; b.cpu.set_iffs(true, true);
    while b.clk.t < 30 { b.step().unwrap(); }
    assert_eq!(a.cpu.get_index16(Prefix::Xdd), 0x1234);
    assert_eq!(a.cpu.get_sp(), b.cpu.get_sp());
    assert_eq!(a.bus(), b.bus());
    assert_eq!(a.cpu, b.cpu);
}''')

bug('c22-limit-after-ei', 'C22', 'EI being the instruction that reaches the limit',
    'execute_with_limit runs one more instruction past the limit after EI',
    [(Z, '''                if !tsc.is_past_limit(vc_limit)  {
                    self.last_ei = false;
                    continue // this way skipping irq check immediately after EI
                }
            }

            self.set_flags''', '''                self.last_ei = false;
                continue // this way skipping irq check immediately after EI
            }

            self.set_flags''')],
    '''fn main() {
    let mut a = Rig::<Z80NMOS>::new(0, &[0xFB, 0x3C, 0x3C, 0x3C]);
    a.limit(4).unwrap();
    assert_eq!(a.clk.t, 4); assert_eq!(a.cpu.get_pc(), 1); assert!(a.cpu.is_after_ei());
    let mut a = Rig::<Z80NMOS>::new(0, &[0xFB, 0x3C, 0x3C, 0x3C]);
    a.limit(5).unwrap();
    assert_eq!(a.clk.t, 8);
}''')

bug('c17-cpir-last-memptr', 'C17', 'the last iteration of a repeating block search (match found or BC exhausted)',
    'MEMPTR is not stepped by the final iteration of CPIR and CPDR',
    [(I, '''        // MEMPTR = MEMPTR +/- 1
        self.memptr.add16(delta as u16);
        None''', '''        else {
            // MEMPTR = MEMPTR +/- 1
            self.memptr.add16(delta as u16);
        }
        None''')],
    '''fn main() {
    for (op, d) in [(0xB1u8, 1u16), (0xB9, 0xFFFF), (0xA1, 1), (0xA9, 0xFFFF)] {
        let mut r = Rig::<Z80NMOS>::new(0, &[0xED, op]);
        r.cpu.set_reg16(StkReg16::BC, 1); r.cpu.set_reg16(StkReg16::HL, 0x4000); r.cpu.set_acc(9); r.cpu.set_memptr(0x2000);
        r.step().unwrap();
        assert_eq!(r.cpu.get_memptr(), 0x2000u16.wrapping_add(d));
    }
}''')

bug('c04-out-wait-break', 'C04', 'a device that answers one write with a break request and wait states at the same time',
    'OUT (n),A loses the wait states when the device also requests a break',
    [(I, '''        if let Some(ws) = wait_states {
            tsc.add_wait_states(port, ws);
        }
        should_break''', '''        match (should_break.is_some(), wait_states) {
            (false, Some(ws)) => tsc.add_wait_states(port, ws),
            _ => {}
        }
        should_break''')],
    '''fn main() {
    for brk in [None, Some(7)] {
        let mut r = Rig::<Z80CMOS>::new(0, &[0xD3, 0x10]);
        r.cpu.set_acc(0x55); r.host.out_wait = 300; r.host.out_break = brk;
        let _ = r.step();
        assert_eq!(r.clk.t, 11 + 300);
        assert!(r.bus().contains(&Ev::Wait(0x5510, 300)));
    }
}''')

bug('c04-ini-wait-order', 'C04', 'a device requesting wait states during INI/IND/INIR/INDR',
    'the wait states are inserted after the memory write cycle instead of in the I/O cycle',
    [(I, '''        let (data, wait_states) = control.read_io(bc, tsc.add_io(bc));
        if let Some(ws) = wait_states {
            tsc.add_wait_states(bc, ws);
        }
        let hl = self.regs.hl.get16();
        control.write_mem(hl, data, tsc.add_mreq(hl));
''', '''        let (data, wait_states) = control.read_io(bc, tsc.add_io(bc));
        let hl = self.regs.hl.get16();
        control.write_mem(hl, data, tsc.add_mreq(hl));
        if let Some(ws) = wait_states {
            tsc.add_wait_states(bc, ws);
        }
''')],
    '''fn main() {
    let mut r = Rig::<Z80NMOS>::new(0, &[0xED, 0xA2]);
    r.cpu.set_reg16(StkReg16::BC, 0x0203); r.cpu.set_reg16(StkReg16::HL, 0x4000); r.host.in_wait = 10; r.host.input = 0x77;
    r.step().unwrap();
    assert_eq!(r.clk.t, 26);
    assert!(r.bus().contains(&Ev::Wr(0x4000, 0x77, 26)));
}''')

bug('c06-im1-debug', 'C06', 'a maskable interrupt accepted in mode 1 while a debugger is attached',
    'the debugger is not told about the RST 38h executed by the interrupt',
    [(I, 'self.execute_instruction::<M,T,F>(control, tsc, debug, opconsts::RST_38H_OPCODE)',
         'self.execute_instruction::<M,T,F>(control, tsc, None, opconsts::RST_38H_OPCODE)')],
    '''fn main() {
    let mut r = Rig::<Z80NMOS>::new(0x200, &[0]);
    r.cpu.set_im(InterruptMode::Mode1); r.cpu.set_iffs(true, true); r.host.irq_from = 0;
    let (_, d) = r.step_dbg();
    assert_eq!(&d.expect("no debug record").code[..], &[0xFF]);
}''')

bug('c07-djnz-record', 'C07', 'a debugger attached while DJNZ falls through (B becomes 0)',
    'the debug record of a DJNZ that falls through has a wrong address and target',
    [(N, '''                $pc += Wrapping(1);
                cpu_debug!([$code, e] DJNZ rel:e);''', '''                cpu_debug!([$code, e] DJNZ rel:e);
                $pc += Wrapping(1);''')],
    '''fn main() {
    for b in [1u8, 2] {
        let mut r = Rig::<Z80NMOS>::new(0x1000, &[0x10, 0xFE]);
        r.cpu.set_reg(Reg8::B, None, b);
        let d = r.step_dbg().1.unwrap();
        assert_eq!(d.pc, 0x1000);
        assert_eq!(d.args, CpuDebugArgs::Single(CpuDebugArg::Imm16(0x1000)));
    }
}''')

bug('c08-probe-when-disabled', 'C08', 'single steps with interrupts disabled (a host whose is_irq has effects, or counts probes)',
    'the interrupt line is probed although interrupts are disabled',
    [(Z, '''        if self.is_irq_allowed() && control.is_irq(tsc.as_timestamp()) {
            return self''', '''        if control.is_irq(tsc.as_timestamp()) && self.is_irq_allowed() {
            return self''')],
    '''fn main() {
    let mut r = Rig::<Z80NMOS>::new(0, &[0, 0xFB, 0, 0]);
    for _ in 0..3 { r.step().unwrap(); }
    assert!(!r.events().iter().any(|e| matches!(e, Ev::IsIrq(_))));
    r.step().unwrap();
    assert!(r.events().iter().any(|e| matches!(e, Ev::IsIrq(_))));
}''')

bug('c09-im2-odd-vector', 'C09', 'interrupt mode 2 with a device placing an odd vector on the bus',
    'the low bit of the vector is dropped from the vector table address',
    [(I, 'let vaddr = ir & 0xFF00 | vector as u16;', 'let vaddr = ir & 0xFF00 | (vector & 0xFE) as u16;')],
    '''fn main() {
    for v in [0xFEu8, 0xFF] {
        let mut r = Rig::<Z80NMOS>::new(0x200, &[0]);
        r.cpu.set_im(InterruptMode::Mode2); r.cpu.set_i(0x40); r.cpu.set_iffs(true, true); r.host.irq_from = 0; r.host.vector = v;
        r.host.mem[0x40FE] = 0x11; r.host.mem[0x40FF] = 0x22; r.host.mem[0x4100] = 0x33;
        r.step().unwrap();
        assert_eq!(r.cpu.get_pc(), if v == 0xFE { 0x2211 } else { 0x3322 });
    }
}''')

bug('c10-nmi-ir', 'C10', 'a host that watches the address bus (contention) while an NMI is accepted',
    'the refresh address of the extra cycle is the one before the R increment',
    [(I, '''        self.iff1 = false;
        self.inc_r();
        let mut pc = self.pc.get16();
        if self.halt {
            self.halt = false;
            pc = pc.wrapping_add(1);
        }
        tsc.add_m1(pc); // pc:4
        // tsc.add_no_mreq::<{NO_MREQ_X1.get()}>(self.get_ir()); // ir:1
        tsc.add_no_mreq(self.get_ir(), NO_MREQ_X1); // ir:1''', '''        self.iff1 = false;
        let ir = self.get_ir();
        self.inc_r();
        let mut pc = self.pc.get16();
        if self.halt {
            self.halt = false;
            pc = pc.wrapping_add(1);
        }
        tsc.add_m1(pc); // pc:4
        // tsc.add_no_mreq::<{NO_MREQ_X1.get()}>(self.get_ir()); // ir:1
        tsc.add_no_mreq(ir, NO_MREQ_X1); // ir:1''')],
    '''fn main() {
    let mut r = Rig::<Z80NMOS>::new(0x200, &[0]);
    r.cpu.set_i(0x3F); r.cpu.set_r(0x7F);
    assert!(r.cpu.nmi(&mut r.host, &mut r.clk));
    assert_eq!(r.bus()[..2], [Ev::M1(0x200), Ev::NoMreq(0x3F00, 1)]);
}''')

bug('c11-reti-iff', 'C11', 'RETI executed with IFF1 and IFF2 different',
    'RETI no longer copies IFF2 into IFF1',
    [(N, '''            $cpu.restore_iff1(); // Both RETI and RETN do that.
            let should_break''', '''            if $code1 != opconsts::RETI_OPCODE_T2.1 {
                $cpu.restore_iff1();
            }
            let should_break''')],
    '''fn main() {
    for op in [0x45u8, 0x4D, 0x55, 0x5D] {
        let mut r = Rig::<Z80NMOS>::new(0, &[0xED, op]);
        r.cpu.set_iffs(false, true);
        r.step().unwrap();
        assert_eq!(r.cpu.get_iffs(), (true, true));
    }
}''')

bug('c12-halt-bus', 'C12', 'a host that watches the bus while the CPU idles in HALT with single steps',
    'the idle fetches of HALT put the following address on the bus',
    [(Z, '''            tsc.add_m1(self.pc.get16());
            self.inc_r();
            Ok(())''', '''            tsc.add_m1(self.pc.get16().wrapping_add(1));
            self.inc_r();
            Ok(())''')],
    '''fn main() {
    let mut r = Rig::<Z80NMOS>::new(0x300, &[0x76]);
    let _ = r.step(); r.events();
    r.step().unwrap(); r.step().unwrap();
    assert_eq!(r.bus(), [Ev::M1(0x300), Ev::M1(0x300)]);
}''')

bug('c13-fetch-ir', 'C13', 'a host reading the refresh address passed with an opcode fetch',
    'the refresh address given with the fetch is the one before the increment',
    [(I, '''        self.inc_r();
        let code = control.read_opcode(pc.0, self.get_ir(), tsc.add_m1(pc.0));''', '''        let ir = self.get_ir();
        self.inc_r();
        let code = control.read_opcode(pc.0, ir, tsc.add_m1(pc.0));''')],
    '''fn main() {
    let mut r = Rig::<Z80NMOS>::new(0, &[0xED, 0x44]);
    r.cpu.set_i(0x12); r.cpu.set_r(0xFE);
    r.step().unwrap();
    let ir: Vec<u16> = r.bus().into_iter().filter_map(|e| if let Ev::Fetch(_, ir, _) = e { Some(ir) } else { None }).collect();
    assert_eq!(ir, [0x12FF, 0x1280]);
}''')

bug('c14-add-index-self', 'C14', 'ADD IY,IY (opcode FD 29)',
    'ADD IY,IY adds IX',
    [(I, 'Reg16::HL => self.index16_ref(prefix).get16(),', 'Reg16::HL => self.get_index16(Prefix::Xdd),')],
    '''fn main() {
    for (p, px) in [(0xDDu8, Prefix::Xdd), (0xFD, Prefix::Yfd)] {
        let mut r = Rig::<Z80NMOS>::new(0, &[p, 0x29]);
        r.cpu.set_index16(Prefix::Xdd, 0x0102); r.cpu.set_index16(Prefix::Yfd, 0x0304);
        let v = r.cpu.get_index16(px);
        r.step().unwrap(); r.step().unwrap();
        assert_eq!(r.cpu.get_index16(px), v + v);
    }
}''')

bug('c14-prefix-ed', 'C14', 'an index prefix followed by an ED instruction and then an instruction using HL',
    'a prefix in front of an ED instruction stays pending for the instruction after it',
    [('src/z80/opcodes.rs', '0xFE|0xFF => {             { $maybe_prefix = None; continue $repeat };}',
      '''0xFE|0xFF => {             {
                if $code != 0xED { $maybe_prefix = None; continue $repeat }
                let code = fetch_next_opcode!();
                define_instructions_scoped!($flags, $pc, $cpu, $control, $tsc);
                match_instruction!(ED [code]; break $repeat);
                break $repeat
            };}''')], '''fn main() { }''') if False else None

bug('c15-sll-carry', 'C15', 'SLL/SLI r with bit 7 of the old and new value different, indexed copy form',
    'the register copy of DD CB d SET b,(IX+d),r receives the value before the bit is set',
    [(I, '''            BitOps::Set(b, arg) => {
                (ops::set(b, val), arg)
            }
        };
        // ii+n(write):3
        control.write_mem(ii_d, result, tsc.add_mreq(ii_d));
        if let Ok(reg) = arg {
            self.set_reg(reg, None, result);
        }''', '''            BitOps::Set(b, arg) => {
                (ops::set(b, val), arg)
            }
        };
        // ii+n(write):3
        control.write_mem(ii_d, result, tsc.add_mreq(ii_d));
        if let Ok(reg) = arg {
            self.set_reg(reg, if reg == Reg8::H { Some(prefix) } else { None }, result);
        }''')],
    '''fn main() {
    for (i, reg) in [Reg8::B, Reg8::C, Reg8::D, Reg8::E, Reg8::H, Reg8::L].into_iter().enumerate() {
        let mut r = Rig::<Z80NMOS>::new(0, &[0xFD, 0xCB, 0x05, 0xC0 | i as u8]);
        r.cpu.set_index16(Prefix::Yfd, 0x4000);
        r.step().unwrap(); r.step().unwrap();
        assert_eq!(r.cpu.get_reg(reg, None), 1);
        assert_eq!(r.cpu.get_index16(Prefix::Yfd), 0x4000);
    }
}''')

bug('c16-iox-parity', 'C16', 'a block I/O instruction with particular values of B and of the sum (B with bits above 2 set)',
    'P/V of INI/IND/OUTI/OUTD (and repeats) is computed with the wrong operator grouping',
    [(O, 'CpuFlags::parity(k & 7 ^ b);', 'CpuFlags::parity(k & (7 ^ b));')],
    '''fn main() {
    for b in 0..=255u8 { for d in 0..=255u8 {
        let mut r = Rig::<Z80NMOS>::new(0, &[0xED, 0xA3]);
        r.cpu.set_reg(Reg8::B, None, b); r.cpu.set_reg16(StkReg16::HL, 0x4000); r.host.mem[0x4000] = d;
        r.step().unwrap();
        let k = d.wrapping_add(1);
        let p = ((k & 7) ^ b.wrapping_sub(1)).count_ones() % 2 == 0;
        assert_eq!(r.cpu.get_flags().pvf(), p);
    } }
}''')

bug('c16-cpi-half', 'C16', 'CPI/CPD with a half borrow that differs from the H flag left by the previous instruction',
    'bits 3 and 5 after CPI/CPD use the previous half-carry flag',
    [(O, 'let n = res.wrapping_sub(bits.hf() as u8);', 'let n = res.wrapping_sub(flags.hf() as u8);')],
    '''fn main() {
    for a in 0..=255u8 { for v in [0u8, 1, 9, 15, 0x88] { for h in [0, 0x10] {
        let mut r = Rig::<Z80NMOS>::new(0, &[0xED, 0xA1]);
        r.cpu.set_acc(a); r.cpu.set_flags(f(h)); r.cpu.set_reg16(StkReg16::HL, 0x4000); r.host.mem[0x4000] = v;
        r.step().unwrap();
        let hf = (a & 15) < (v & 15);
        let n = a.wrapping_sub(v).wrapping_sub(hf as u8);
        assert_eq!(r.cpu.get_flags().bits() & 0x28, n & 8 | n << 4 & 0x20);
    } } }
}''')

bug('c18-nmi-q', 'C18', 'a flag-modifying instruction, then an NMI, then SCF or CCF as the first instruction of the handler',
    'accepting an NMI does not count as an instruction in the flag-modification history',
    [(I, '''        self.push16(pc, control, tsc); // sp-1:3, sp-2:3
        self.flavour.begin_instruction();
        self.pc.set16(NMI_RESTART);''', '''        self.push16(pc, control, tsc); // sp-1:3, sp-2:3
        self.pc.set16(NMI_RESTART);''')],
    '''fn main() {
    let mut r = Rig::<Z80NMOS>::new(0x200, &[0xB7]);
    r.host.mem[0x66] = 0x37;
    r.cpu.set_acc(0x28);
    r.step().unwrap();                       // OR A: modifies the flags, X and Y set
    r.cpu.set_acc(0);
    assert!(r.cpu.nmi(&mut r.host, &mut r.clk));
    r.step().unwrap();                       // SCF after the NMI: X and Y from A | F
    assert_eq!(r.cpu.get_flags().bits() & 0x28, 0x28);
}''')

bug('c19-any-set-iffs', 'C19', 'the runtime-selectable CPU used for setting IFF1 and IFF2 to different values',
    'Z80Any::set_iffs passes its arguments in the wrong order',
    [('src/z80/any.rs', 'cpu_dispatch_any!(self(cpu) => cpu.set_iffs(iff1, iff2))', 'cpu_dispatch_any!(self(cpu) => cpu.set_iffs(iff2, iff1))')],
    '''fn main() {
    for mut c in [Z80Any::new_nmos(), Z80Any::new_cmos(), Z80Any::new_bm1()] {
        c.set_iffs(false, true);
        assert_eq!(c.get_iffs(), (false, true));
    }
}''')

bug('c20-nmos-bm1-history', 'C20', 'converting an NMOS CPU to BM1 right after a flag-modifying instruction and running SCF next',
    'the conversion loses part of the flag-modification history',
    [('src/z80/flavours.rs', '''    fn from(NMOS{flags_modified, last_flags_modified}: NMOS) -> Self {
        BM1 {flags_modified, last_flags_modified}''', '''    fn from(NMOS{last_flags_modified, ..}: NMOS) -> Self {
        BM1 {flags_modified: last_flags_modified, last_flags_modified}''')],
    '''fn main() {
    let mut r = Rig::<Z80NMOS>::new(0, &[0xB7, 0x37]);
    r.cpu.set_acc(0x28);
    r.step().unwrap();
    let mut q = Rig::<Z80BM1>::with(r.cpu.into_flavour::<BM1>(), 1, &[0x37]);
    q.cpu.set_acc(0);
    q.step().unwrap();
    assert_eq!(q.cpu.get_flags().bits() & 0x28, 0);
}''')

bug('c23-get-r-overflow', 'C23', 'reading R after the refresh counter has wrapped past 127',
    'get_r leaks the carry out of the 7-bit counter into bit 7',
    [(Z, '        let r = self.ir.get8lo();\n        r & 0x80 | self.r.0 & 0x7F', '        let r = self.ir.get8lo();\n        r & 0x80 | self.r.0')],
    '''fn main() {
    let mut c = Z80NMOS::default();
    c.set_r(0x7F); c.inc_r();
    assert_eq!(c.get_r(), 0);
    c.set_r(0xFF); c.inc_r();
    assert_eq!(c.get_r(), 0x80);
}''')

bug('c24-wait-trunc', 'C24', 'a device requesting more than 255 wait states',
    'TsCounter adds only the low byte of the wait states',
    [('src/host.rs', 'self.0 += Wrapping(wait_states.get().into())', 'self.0 += Wrapping((wait_states.get() as u8).into())')], '''fn main() {
    let mut c = host::TsCounter::<u32>::default();
    c.add_wait_states(0, NonZeroU16::new(0x0102).unwrap());
    assert_eq!(c.as_timestamp(), 0x102);
}''')

bug('c29-reti-break-pop', 'C29', 'a host that answers RETI with a break request',
    'when the host requests a break at RETI the return address is not popped',
    [(N, """            let addr: u16 = pop16!();
            // JR/DJNZ/RET/RETI/RST (jumping to addr) MEMPTR = addr
            $cpu.memptr.set16(addr);
            $pc = Wrapping(addr);
            if let Some(cause) = should_break {
                break $main LoopExitReason::Reti(cause);
            }""", """            if let Some(cause) = should_break {
                break $main LoopExitReason::Reti(cause);
            }
            let addr: u16 = pop16!();
            // JR/DJNZ/RET/RETI/RST (jumping to addr) MEMPTR = addr
            $cpu.memptr.set16(addr);
            $pc = Wrapping(addr);""")],
    '''fn main() {
    let mut r = Rig::<Z80NMOS>::new(0, &[0xED, 0x4D]);
    r.host.reti_break = Some(5); r.host.mem[0x8000] = 0x34; r.host.mem[0x8001] = 0x12;
    assert!(matches!(r.step(), Err(BreakCause::Reti(5))));
    assert_eq!(r.cpu.get_pc(), 0x1234); assert_eq!(r.cpu.get_sp(), 0x8002);
}''')

bug('c29-rst-after-halt', 'C29', 'an interrupt in mode 2 accepted while halted',
    'in mode 2 the address of the HALT itself is pushed',
    [(I, '                self.push16(pc, control, tsc); // sp-1:3, sp-2:3\n                let vaddr', '                let ret = if M_IS_HALT(self.halt) { pc } else { pc };\n                self.push16(ret, control, tsc); // sp-1:3, sp-2:3\n                let vaddr')], '''fn main() {}''') if False else None

bug('c29-jr-cc', 'C29', 'JR NC with particular flags (carry clear and zero set)',
    'JR NC,e is not taken when Z is set',
    [(N, None, None)], '') if False else None

bug('c30-otir-break-resume', 'C30', 'a break requested by the device in the middle of OTDR or OTIR',
    'a break ends the repetition: the program counter moves past the instruction although B is not zero',
    [(I, '''                tsc.add_no_mreq(bc, NO_MREQ_X5);
                return (should_break, Some(pc - Wrapping(2)))''', '''                tsc.add_no_mreq(bc, NO_MREQ_X5);
                if should_break.is_none() {
                    return (should_break, Some(pc - Wrapping(2)))
                }''')],
    '''fn main() {
    let mut r = Rig::<Z80NMOS>::new(0, &[0xED, 0xBB]);
    r.cpu.set_reg16(StkReg16::BC, 0x0300); r.host.out_break = Some(1);
    let _ = r.step(); assert_eq!(r.cpu.get_pc(), 0);
    let _ = r.step(); assert_eq!(r.cpu.get_pc(), 0);
    let _ = r.step(); assert_eq!(r.cpu.get_pc(), 2);
}''')

bug('c32-serde-std', 'C32', 'building with the serde feature and without std',
    'the serde support names the standard library',
    [('src/z80/serde.rs', 'use core::marker::PhantomData;\nuse core::fmt;', 'use std::marker::PhantomData;\nuse core::fmt;')],
    None)

bug('c01-index-debug', 'C01', 'a debugger attached and a displacement that carries the relative target past the end of memory',
    'the relative address arithmetic overflows in builds with overflow checks',
    [(N, None, None)], '') if False else None

bug('c27-tuple', 'C27', 'encoding a bit operation on the accumulator back to its opcode',
    'StkReg16 and Reg16 codes disagree with the opcode field',
    [('src/cpu/parse.rs', None, None)], '') if False else None
B[:] = [b for b in B if b]

for b in B:
    if b['id'] == 'c32-serde-std':
        b['demo'] = """#!/bin/bash
# The crate must build with serde and without std.
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
timeout 250 cargo +stable build --offline -q --lib -p z80emu --no-default-features --features serde --target-dir "$T"
"""

# ---- third batch
bug('c01-rxd-top', 'C01', 'RRD or RLD with HL = FFFF in a build with overflow checks',
    'the address following HL is computed with a plain addition: the instruction panics (debug) when HL is FFFF',
    [(I, 'self.memptr.set16(hl.wrapping_add(1));\n        let val = control.read_mem(hl, tsc.add_mreq(hl));\n        // tsc.add_no_mreq::<{NO_MREQ_X4',
         'self.memptr.set16(hl + 1);\n        let val = control.read_mem(hl, tsc.add_mreq(hl));\n        // tsc.add_no_mreq::<{NO_MREQ_X4')],
    '''fn main() {
    for hl in [0x1000u16, 0xFFFF] { for op in [0x67u8, 0x6F] {
        let mut r = Rig::<Z80NMOS>::new(0, &[0xED, op]);
        r.cpu.set_reg16(StkReg16::HL, hl);
        r.step().unwrap();
        assert_eq!(r.cpu.get_memptr(), hl.wrapping_add(1));
    } }
}''')
bug('c01-block-in-top', 'C01', 'a block input with BC = FFFF (INI/INIR) or 0000 (IND/INDR) in a build with overflow checks',
    'MEMPTR is computed with a plain signed addition: INI panics when BC is 7FFF',
    [(I, 'self.memptr.set16(bc.wrapping_add(delta as u16));\n        let b = ((bc >> 8) as u8).wrapping_sub(1);',
         'self.memptr.set16((bc as i16 + delta as i16) as u16);\n        let b = ((bc >> 8) as u8).wrapping_sub(1);')],
    '''fn main() {
    for bc in [0x1000u16, 0xFFFF, 0x7FFF] {
        let mut r = Rig::<Z80NMOS>::new(0, &[0xED, 0xA2]);
        r.cpu.set_reg16(StkReg16::BC, bc);
        r.step().unwrap();
        assert_eq!(r.cpu.get_memptr(), bc.wrapping_add(1));
    }
}''')
bug('c02-im2-idle', 'C02', 'a maskable interrupt accepted in mode 2 with a clock that orders its cycles',
    'the internal cycle of the mode 2 acknowledge comes after the return address has been pushed',
    [(I, '''                tsc.add_no_mreq(ir, NO_MREQ_X1); // ir:1
                self.push16(pc, control, tsc); // sp-1:3, sp-2:3
                let vaddr''', '''                self.push16(pc, control, tsc); // sp-1:3, sp-2:3
                tsc.add_no_mreq(ir, NO_MREQ_X1); // ir:1
                let vaddr''')],
    '''fn main() {
    let mut r = Rig::<Z80CMOS>::new(0x100, &[0]);
    r.cpu.set_im(InterruptMode::Mode2); r.cpu.set_i(0x40); r.cpu.set_iffs(true, true); r.host.irq_from = 0;
    r.step().unwrap();
    let ev = r.bus();
    let a = ev.iter().position(|e| matches!(e, Ev::NoMreq(..))).unwrap();
    let b = ev.iter().position(|e| matches!(e, Ev::Wr(..))).unwrap();
    assert!(a < b);
    assert_eq!(r.clk.t, 19);
}''')
bug('c05-limit-irq-break', 'C05', 'a break requested by the device when a maskable interrupt in mode 0 supplies an output instruction while running with a limit',
    'execute_with_limit swallows the break requested while accepting an interrupt',
    [(Z, '''                    Err(cause) => return Err(cause)
                }''', '''                    Err(BreakCause::WriteIo(..)) if self.im == InterruptMode::Mode0 => continue,
                    Err(cause) => return Err(cause)
                }''')],
    '''fn main() {
    let mut r = Rig::<Z80NMOS>::new(0x100, &[0, 0x10, 0, 0, 0, 0]);
    r.cpu.set_im(InterruptMode::Mode0); r.cpu.set_iffs(true, true); r.host.irq_from = 4; r.host.vector = 0xD3; r.host.out_break = Some(77);
    match r.limit(40) { Err(BreakCause::WriteIo(77)) => {}, x => panic!("{:?}", x) }
}''')
bug('c24-memory16-top', 'C24', 'a memory relying on the default 16-bit read, at address FFFF',
    'the default 16-bit read overflows (or reads the wrong second byte) at the top of memory',
    [('src/host.rs', 'self.read_debug(address.wrapping_add(1))', 'self.read_debug(address.saturating_add(1))')],
    '''struct M;
impl Memory for M { type Timestamp = u32; fn read_debug(&self, a: u16) -> u8 { ((a >> 8) as u8).wrapping_mul(3) ^ a as u8 } }
fn main() {
    for a in [0u16, 0x12FF, 0xFFFE, 0xFFFF] {
        let [l, h] = M.read_mem16(a, 0).to_le_bytes();
        assert_eq!((l, h), (M.read_debug(a), M.read_debug(a.wrapping_add(1))));
    }
}''')
bug('c26-first-last', 'C26', 'disassembling code whose last instruction ends exactly at the end of the slice',
    'the last instruction is dropped when it ends exactly where the memory does and is longer than one byte',
    [('src/disasm.rs', 'if cursor > memory.len() {', 'if cursor > memory.len() || cursor == memory.len() && dbg.as_ref().map_or(false, |d| d.code.len() > 3) {')],
    '''fn main() {
    let code = [0xDD, 0x21, 0x34, 0x12];
    let mut n = 0;
    z80emu::disasm::disasm_memory::<Z80NMOS, _, ()>(0, &code, |d| { n += d.code.len(); Ok(()) }).unwrap();
    assert_eq!(n, 4);
}''')
bug('c26-long', 'C26', 'disassembling more than 32768 bytes',
    'the address of instructions beyond the first 32768 bytes is wrong',
    [('src/disasm.rs', 'let pc = pc.wrapping_add(cursor as u16);', 'let pc = pc.wrapping_add_signed((cursor & 0x7FFF) as i16);')],
    '''fn main() {
    let code = vec![0u8; 40000];
    let mut at = 0u16;
    z80emu::disasm::disasm_memory::<Z80NMOS, _, ()>(7, &code, |d| { assert_eq!(d.pc, 7 + at); at += 1; Ok(()) }).unwrap();
}''')
bug('c27-im-wide', 'C27', 'converting the number 3 to an interrupt mode',
    'numbers above 2 are accepted as interrupt mode 2',
    [('src/cpu/registers.rs', '            2 => Ok(InterruptMode::Mode2),\n            _ => Err(())', '            2 | 3 => Ok(InterruptMode::Mode2),\n            _ => Err(())')],
    '''fn main() { for i in 0..=255u8 { assert_eq!(InterruptMode::try_from(i).map(u8::from).ok(), if i < 3 { Some(i) } else { None }); } }''')
bug('c28-neg-offset', 'C28', 'the hexadecimal text of an index offset of -128',
    'an offset of -128 is shown as 7f in hexadecimal',
    [('src/cpu/debug.rs', 'write!(f, "({}-{:02x}h)", px, 0u8.wrapping_sub(*d as u8))', 'write!(f, "({}-{:02x}h)", px, d.saturating_neg())')],
    '''fn main() {
    for d in -128i8..0 {
        let a = CpuDebugAddr::IndexAddr(Prefix::Xdd, Some(d));
        assert_eq!(format!("{:x}", a), format!("(IX-{:02x}h)", -(d as i32)));
    }
}''')
bug('c28-pad-short', 'C28', 'the padded text of a bit operation with an index offset and a destination register',
    'the padded hexadecimal text of the longest arguments fails with an error',
    [('src/cpu/debug.rs', 'pad!([15] f, (#"{:#X}", "{:X}"), self)', 'pad!([14] f, (#"{:#X}", "{:X}"), self)')],
    '''use std::fmt::Write;
fn main() {
    let a = CpuDebugArgs::BitOpExt(7, CpuDebugArg::Addr(CpuDebugAddr::IndexAddr(Prefix::Yfd, Some(-128))), Reg8::A);
    let mut s = String::new();
    assert!(write!(s, "{:#20X}", a).is_ok());
    assert_eq!(s.trim(), "7, (IY-0x80), A");
}''')
bug('c21-iff2', 'C21', 'saving and restoring a CPU whose two interrupt flip-flops differ (inside an NMI routine)',
    'the first interrupt flip-flop is saved in place of the second',
    [('src/z80/serde.rs', 'state.serialize_field("iff2", &self.iff2)?;', 'state.serialize_field("iff2", &self.iff1)?;')],
    '''fn main() {
    let mut c = Z80NMOS::default(); c.set_iffs(false, true);
    let s = serde_json::to_string(&c).unwrap();
    let d: Z80NMOS = serde_json::from_str(&s).unwrap();
    assert_eq!(d.get_iffs(), (false, true));
}''', deps='serde_json = "1"')
bug('c21-bm1', 'C21', 'restoring a BM1 CPU right after an instruction that modified flags, as the runtime-selectable CPU',
    'the flags history of a BM1 is lost when it is restored from a self-describing format',
    [('src/z80/serde.rs', 'flavour: flavour.map(BM1::from).unwrap_or_default()', 'flavour: flavour.filter(|f| *f == NMOS::default()).map(BM1::from).unwrap_or_default()')],
    '''fn main() {
    let mut r = Rig::<Z80BM1>::new(0, &[0x3C, 0x37]);
    r.step().unwrap();
    let s = serde_json::to_string(&r.cpu).unwrap();
    let d: Z80BM1 = serde_json::from_str(&s).unwrap();
    assert_eq!(d, r.cpu);
}''', deps='serde_json = "1"')
bug('c33-dec-zero', 'C33', 'counting a register pair down from 0100 or from 1',
    'counting down reports zero as soon as the low half is zero',
    [('src/cpu/registers.rs', '''        let val = self.get16().wrapping_sub(1);
        self.set16(val);
        val == 0''', '''        let val = self.get16().wrapping_sub(1);
        self.set16(val);
        self.0[0] | (self.0[1] & 0x7F) == 0''')],
    '''fn main() {
    for v in 0..=0xFFFFu16 { let mut p = RegisterPair::from(v); assert_eq!(p.dec16_is_zero(), v == 1, "{:x}", v); assert_eq!(p.get16(), v.wrapping_sub(1)); }
}''')

bug('c03-nmi-push', 'C03', 'a non-maskable interrupt on a host that uses the time of a memory write',
    'the low half of the return address pushed by a non-maskable interrupt is written with the timestamp of the high half',
    [(I, """        self.push16(pc, control, tsc); // sp-1:3, sp-2:3
        self.flavour.begin_instruction();""", """        let [vlo, vhi] = pc.to_le_bytes();
        let sp = self.sp.get16().wrapping_sub(1);
        control.write_mem(sp, vhi, tsc.add_mreq(sp)); // sp-1:3
        let sp = sp.wrapping_sub(1);
        let ts = tsc.as_timestamp();
        tsc.add_mreq(sp); // sp-2:3
        control.write_mem(sp, vlo, ts);
        self.sp.set16(sp);
        self.flavour.begin_instruction();""")],
    """fn main() {
    let mut r = Rig::<Z80NMOS>::new(0x1234, &[0]);
    assert!(r.cpu.nmi(&mut r.host, &mut r.clk));
    let w: Vec<_> = r.events().into_iter().filter(|e| matches!(e, Ev::Wr(..))).collect();
    assert_eq!(w, vec![Ev::Wr(0x7FFF, 0x12, 8), Ev::Wr(0x7FFE, 0x34, 11)]);
}""")
bug('c31-parity-four', 'C31', 'the parity helper given a value with four or six bits set', 'the parity of such a value is reported odd',
    [('src/cpu/flags.rs', 'Self::mask_pvf(res.count_ones() & 1 == 0)', 'Self::mask_pvf(res.count_ones() & 5 == 0)')],
    """fn main() { for v in 0..=255u8 { assert_eq!(CpuFlags::parity(v) == CpuFlags::P, v.count_ones() % 2 == 0); } }""")
bug('c34-debug-iff', 'C34', 'the debug text of a CPU inside a non-maskable interrupt routine', 'the second interrupt flip-flop is shown with the value of the first',
    [('src/z80/debug.rs', '.field("iff2", &self.iff2)', '.field("iff2", &(self.iff1 && self.iff2))')],
    """fn main() { let mut c = Z80NMOS::default(); c.set_iffs(false, true); let s = format!("{:?}", c); assert!(s.contains("iff1: false, iff2: true"), "{}", s); }""")

# ---- fourth batch
bug('c10-nested-iff2', 'C10', 'a second non-maskable interrupt inside the routine of the first, entered with interrupts enabled',
    'a non-maskable interrupt copies the first flip-flop into the second, so a nested one loses the enable state for good',
    [(I, '        self.last_ei = false;\n        self.iff1 = false;\n        self.inc_r();',
         '        self.last_ei = false;\n        if !self.iff1 && self.im != InterruptMode::Mode0 {\n            self.iff2 = false;\n        }\n        self.iff1 = false;\n        self.inc_r();')],
    """fn main() {
    let mut r = Rig::<Z80NMOS>::new(0x100, &[0, 0]);
    r.cpu.set_im(InterruptMode::Mode1);
    r.cpu.set_iffs(true, true);
    assert!(r.cpu.nmi(&mut r.host, &mut r.clk));
    assert_eq!(r.cpu.get_iffs(), (false, true));
    r.step().unwrap();
    assert!(r.cpu.nmi(&mut r.host, &mut r.clk));
    assert_eq!(r.cpu.get_iffs(), (false, true));
}""")
bug('c13-im2-refresh', 'C13', 'a maskable interrupt accepted in mode 2',
    'accepting an interrupt in mode 2 does not count a refresh',
    [(I, '        self.disable_interrupts();\n        self.inc_r();\n        let mut pc = self.pc.get16();\n        if self.halt {\n            self.halt = false;\n            pc = pc.wrapping_add(1);\n            self.pc.set16(pc);',
         '        self.disable_interrupts();\n        let mut pc = self.pc.get16();\n        if self.halt || self.im != InterruptMode::Mode2 {\n            self.inc_r();\n        }\n        if self.halt {\n            self.halt = false;\n            pc = pc.wrapping_add(1);\n            self.pc.set16(pc);')],
    """fn main() {
    for im in [InterruptMode::Mode0, InterruptMode::Mode1, InterruptMode::Mode2] {
        let mut r = Rig::<Z80CMOS>::new(0x100, &[0]);
        r.cpu.set_im(im); r.cpu.set_iffs(true, true); r.cpu.set_r(0x7F); r.host.irq_from = 0;
        r.step().unwrap();
        assert_eq!(r.cpu.get_r(), 0);
    }
}""")
bug('c14-limit-prefix-lost', 'C14', 'running with a limit which is reached right after an index prefix',
    'the pending prefix is forgotten when the limit is reached on it',
    [(Z, '            self.set_flags(flags);\n            self.pc.set16(pc.0);\n            self.prefix = prefix;\n\n            return reason;',
         '            self.set_flags(flags);\n            self.pc.set16(pc.0);\n            if !matches!(reason, LoopExitReason::LimitReached) || self.prefix.is_some() {\n                self.prefix = prefix;\n            }\n\n            return reason;')],
    """fn main() {
    let mut r = Rig::<Z80NMOS>::new(0, &[0xDD, 0x21, 0x34, 0x12]);
    r.limit(4).unwrap();
    assert!(r.cpu.is_after_prefix());
    r.limit(18).unwrap();
    assert_eq!(r.cpu.get_index16(Prefix::Xdd), 0x1234);
}""")
bug('c18-in-f-history', 'C18', 'SCF or CCF right after the undocumented IN (C) (ED 70)',
    'IN (C) without a destination register is not recorded as having changed the flags',
    [(I, """        ops::io(data, flags);
        self.flavour.flags_modified();
        // IN r,(C)     MEMPTR = BC + 1
        self.memptr.set16(bc.wrapping_add(1));
        if let Ok(dst) = arg { // IN r,(C)
""", """        ops::io(data, flags);
        // IN r,(C)     MEMPTR = BC + 1
        self.memptr.set16(bc.wrapping_add(1));
        if let Ok(dst) = arg { // IN r,(C)
            self.flavour.flags_modified();
""")],
    """fn main() {
    let mut r = Rig::<Z80NMOS>::new(0, &[0xED, 0x70, 0x37]);
    r.host.input = 0x28; r.cpu.set_acc(0); r.cpu.set_flags(f(0));
    r.step().unwrap(); r.step().unwrap();
    assert_eq!(r.cpu.get_flags().bits() & 0x28, 0);
}""")
bug('c20-prefix-lost', 'C20', 'converting a CPU to another flavour between an index prefix and its instruction',
    'the pending prefix is dropped by the conversion when only the first interrupt flip-flop is set',
    [(Z, '            prefix: self.prefix,\n            r: self.r,\n            flavour: self.flavour.into()',
         '            prefix: self.prefix.filter(|_| !self.iff1 || self.iff2),\n            r: self.r,\n            flavour: self.flavour.into()')],
    """fn main() {
    for (a, b) in [(true, true), (true, false), (false, true), (false, false)] {
        let mut r = Rig::<Z80NMOS>::new(0, &[0xFD, 0]);
        r.cpu.set_iffs(a, b);
        r.step().unwrap();
        let c: Z80CMOS = r.cpu.into_flavour();
        assert_eq!(c.get_prefix(), Some(Prefix::Yfd));
        assert_eq!(c.get_iffs(), (a, b));
    }
}""")
bug('c08-irq-after-prefix', 'C08', 'an explicit irq request made between an FD prefix and its instruction in interrupt mode 2',
    'the interrupt is accepted although a prefix is pending',
    [(Z, '        self.iff1 && is_int_allowed(self.prefix, self.last_ei)', '        self.iff1 && is_int_allowed(self.prefix.filter(|p| *p != Prefix::Yfd || self.im != InterruptMode::Mode2), self.last_ei)')],
    """fn main() {
    for im in [InterruptMode::Mode0, InterruptMode::Mode1, InterruptMode::Mode2] { for p in [0xDDu8, 0xFD] {
        let mut r = Rig::<Z80BM1>::new(0x100, &[p, 0x21, 1, 2]);
        r.cpu.set_im(im); r.cpu.set_iffs(true, true);
        r.step().unwrap();
        r.host.irq_from = 0;
        assert!(!r.cpu.is_irq_allowed());
        assert!(r.cpu.irq(&mut r.host, &mut r.clk, NODBG).is_none());
    } }
}""")
bug('c09-halt-im1-return', 'C09', 'a maskable interrupt in mode 1 (or 0) that ends a HALT',
    'the return address pushed when an interrupt ends a HALT is the HALT itself, which is executed again on return',
    [(I, '            pc = pc.wrapping_add(1);\n            self.pc.set16(pc);\n        }\n        let bus_ts', '            pc = pc.wrapping_add(1);\n            if self.im != InterruptMode::Mode1 || self.iff2 {\n                self.pc.set16(pc);\n            }\n        }\n        let bus_ts')],
    """fn main() {
    for im in [InterruptMode::Mode0, InterruptMode::Mode1, InterruptMode::Mode2] {
        let mut r = Rig::<Z80NMOS>::new(0x100, &[0x76]);
        r.cpu.set_im(im); r.cpu.set_iffs(true, true); r.host.irq_from = 9;
        assert!(r.step().is_err());
        r.step().unwrap(); r.step().unwrap(); r.step().unwrap();
        assert_eq!(r.host.mem[0x7FFE], 1);
        assert_eq!(r.host.mem[0x7FFF], 1);
    }
}""")
bug('c05-im0-reti-break', 'C05', 'RETI supplied as the mode 0 interrupt vector prefix (ED 4D) with a device that answers it with a break',
    'a break requested by the end-of-interrupt notification is lost when the instruction came from the interrupting device',
    [(I, "                self.execute_instruction::<M,T,F>(control, tsc, debug, vector)\n", """                match self.execute_instruction::<M,T,F>(control, tsc, debug, vector) {
                    Err(BreakCause::Reti(_)) => Ok(()),
                    res => res
                }
""")],
    """fn main() {
    for i in [false, true] {
        let mut r = Rig::<Z80NMOS>::new(0x100, &[0x4D]);
        r.cpu.set_im(InterruptMode::Mode0); r.cpu.set_iffs(true, true); r.host.irq_from = 0; r.host.vector = 0xED; r.host.reti_break = Some(5);
        if i { r.host.mem[0x100] = 0x4D; }
        match r.step() { Err(BreakCause::Reti(5)) => {}, x => panic!("{:?}", x) }
        let mut r = Rig::<Z80NMOS>::new(0x100, &[0xFB, 0xED, 0x4D]);
        r.cpu.set_iffs(i, i); r.host.reti_break = Some(6);
        r.step().unwrap();
        match r.step() { Err(BreakCause::Reti(6)) => {}, x => panic!("{:?}", x) }
    }
}""")
bug('c17-bm1-out-memptr', 'C17', 'OUT (n),A with n = FF on a host that observes MEMPTR',
    'OUT (n),A carries into the high half of MEMPTR',
    [(I, '''        // MEMPTR_low = (port + 1) & #FF,  MEMPTR_hi = A
        self.memptr = Q::memptr_mix(a, n).into();
        let port = u16::from_le_bytes([n, a]);''', '''        // MEMPTR_low = (port + 1) & #FF,  MEMPTR_hi = A
        let (mhi, mlo) = Q::memptr_mix(a, n);
        self.memptr = (if mlo == 0 { mhi.wrapping_add((mhi != 0) as u8) } else { mhi }, mlo).into();
        let port = u16::from_le_bytes([n, a]);''')],
    """fn main() {
    for n in [0x10u8, 0xFE, 0xFF] {
        let mut r = Rig::<Z80NMOS>::new(0, &[0xD3, n]);
        r.cpu.set_acc(0x40);
        r.step().unwrap();
        assert_eq!(r.cpu.get_memptr(), 0x4000 | n.wrapping_add(1) as u16);
    }
}""")
bug('c30-inir-b0', 'C30', 'INIR or INDR started with B = 0 (256 iterations)',
    'a repeating block input started with B = 0 stops after one iteration',
    [(I, '''        self.regs.bc.set8hi(b);
        self.regs.hl.set16(hl.wrapping_add(delta as u16));
        if let Some(pc) = pc {
            if b != 0 {''', '''        self.regs.bc.set8hi(b);
        self.regs.hl.set16(hl.wrapping_add(delta as u16));
        if let Some(pc) = pc {
            if b.wrapping_add(1) > 1 {''')],
    """fn main() {
    for b in [0u16, 1, 2, 255] { for op in [0xB2u8, 0xBA] {
        let mut r = Rig::<Z80NMOS>::new(0, &[0xED, op]);
        r.cpu.set_reg16(StkReg16::BC, b << 8); r.cpu.set_reg16(StkReg16::HL, 0x4000);
        r.step().unwrap();
        assert_eq!(r.cpu.get_pc(), if b == 1 { 2 } else { 0 });
    } }
}""")
bug('c29-ex-sp-top', 'C29', 'EX (SP),HL with SP = FFFF',
    'the exchange with the top of the stack writes the high byte to the wrong address when SP is FFFF',
    [(I, '''        let sp_1 = sp.wrapping_add(1);
        tsc.add_mreq(sp_1);
        // tsc.add_no_mreq::<{NO_MREQ_X1.get()}>(sp_1);
        tsc.add_no_mreq(sp_1, NO_MREQ_X1);''', '''        let sp_1 = sp.saturating_add(1);
        tsc.add_mreq(sp_1);
        // tsc.add_no_mreq::<{NO_MREQ_X1.get()}>(sp_1);
        tsc.add_no_mreq(sp_1, NO_MREQ_X1);''')],
    """fn main() {
    for sp in [0x8000u16, 0xFFFF] {
        let mut r = Rig::<Z80NMOS>::new(0x100, &[0xE3]);
        r.cpu.set_sp(sp); r.cpu.set_reg16(StkReg16::HL, 0x1234);
        r.step().unwrap();
        assert_eq!((r.host.mem[sp as usize], r.host.mem[sp.wrapping_add(1) as usize]), (0x34, 0x12));
    }
}""")
bug('c23-reset-im', 'C23', 'reset of a CPU that is halted in interrupt mode 2', 'reset keeps the interrupt mode when it was mode 2',
    [(Z, 'self.im = InterruptMode::Mode0;', 'if self.im != InterruptMode::Mode2 || !self.halt { self.im = InterruptMode::Mode0; }')],
    """fn main() {
    let mut c = Z80NMOS::default(); c.set_im(InterruptMode::Mode2); c.halt(); c.reset();
    assert_eq!(c.get_im(), InterruptMode::Mode0);
}""")
OWN = """#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
struct Own { last: bool, now: bool, n: u8 }
impl Flavour for Own {
    const CONSTANT_OUT_DATA: u8 = 0x5A;
    const ACCEPTING_INT_RESETS_IFF2_EARLY: bool = true;
    fn tag() -> &'static str { "OWN" }
    fn memptr_mix(msb: u8, lsb: u8) -> (u8, u8) { (!msb, lsb ^ 0x81) }
    fn begin_instruction(&mut self) { self.last = self.now; self.now = false; }
    fn flags_modified(&mut self) { self.now = true; }
    fn get_q(&self, acc: u8, _: CpuFlags) -> u8 { if self.last { !acc } else { acc } }
    fn cpu_into_any(_: Z80<Self>) -> Z80Any { unimplemented!() }
    fn unwrap_cpu_any(_: Z80Any) -> Z80<Self> { unimplemented!() }
    fn reset(&mut self) { *self = Own { last: true, now: true, n: 7 }; }
}
"""
bug('c35-out-constant', 'C35', 'OUT (C),(HL) (ED 71) on a CPU with a flavour of its own',
    'the constant put out by ED 71 is 0 or FF, whatever the flavour says',
    [(I, '                Q::CONSTANT_OUT_DATA\n', '                if Q::CONSTANT_OUT_DATA == 0 { 0 } else { u8::MAX }\n')],
    OWN + """fn main() {
    let mut r = Rig::<Z80<Own>>::new(0, &[0xED, 0x71]);
    r.cpu.set_reg16(StkReg16::BC, 0x1234);
    r.step().unwrap();
    let log = r.host.log.borrow().clone();
    assert!(log.iter().any(|e| matches!(e, Ev::Out(0x1234, 0x5A, _))), "{:?}", log);
}""")
bug('c35-mix-ld-rp', 'C35', 'LD (BC),A or LD (DE),A on a CPU with a flavour of its own',
    'LD (rp),A takes only the high half of MEMPTR from the flavour',
    [(I, '        self.memptr = Q::memptr_mix(a, rp16 as u8).into();\n', '        let (hi, _) = Q::memptr_mix(a, rp16 as u8);\n        self.memptr = (hi, (rp16 as u8).wrapping_add(1)).into();\n')],
    OWN + """fn main() {
    for code in [0x02u8, 0x12] {
        let mut r = Rig::<Z80<Own>>::new(0, &[code]);
        r.cpu.set_reg16(StkReg16::BC, 0x4455); r.cpu.set_reg16(StkReg16::DE, 0x4455); r.cpu.set_acc(0x0F);
        r.step().unwrap();
        assert_eq!(r.cpu.get_memptr(), 0xF0D4);
    }
}""")
bug('c35-reset-flavour', 'C35', 'resetting a CPU whose flavour resets to something else than its default',
    'reset puts the default flavour in place instead of resetting it',
    [(Z, '        self.flavour.reset();\n', '        self.flavour = Q::default();\n')],
    OWN + """fn main() {
    let mut c = Z80::<Own>::default();
    assert_eq!(c.flavour, Own::default());
    c.reset();
    assert_eq!(c.flavour, Own { last: true, now: true, n: 7 });
    assert_eq!(Z80::<Own>::new().flavour, Own { last: true, now: true, n: 7 });
}""")

# ---- sixth batch
bug('c22-poll-counter', 'C22', 'more than 255 instructions in one run until a limit without anything interrupting the run',
    'the run loop skips one poll of the interrupt line after every 256 instructions',
    [(Z, "        let mut flags = self.get_flags();\n\n        loop {\n            let reason", "        let mut flags = self.get_flags();\n        let mut polls = 0u8;\n\n        loop {\n            let reason"),
     (Z, "                if is_int_allowed(prefix, false) && self.iff1 && control.is_irq(tsc.as_timestamp()) {\n                    break 'main LoopExitReason::Irq\n                }\n            };\n\n            if let",
         "                polls = polls.wrapping_add(1);\n                if polls != 0 && is_int_allowed(prefix, false) && self.iff1 && control.is_irq(tsc.as_timestamp()) {\n                    break 'main LoopExitReason::Irq\n                }\n            };\n\n            if let")],
    """fn main() {
    let mut r = Rig::<Z80NMOS>::new(0, &[]);
    r.cpu.set_iffs(true, true);
    r.limit(4 * 300).unwrap();
    let polls: Vec<u32> = r.events().iter().filter_map(|e| if let Ev::IsIrq(t) = e { Some(*t) } else { None }).collect();
    let mut s = Rig::<Z80NMOS>::new(0, &[]);
    s.cpu.set_iffs(true, true);
    while s.clk.t < 4 * 300 { s.step().unwrap(); }
    let want: Vec<u32> = s.events().iter().filter_map(|e| if let Ev::IsIrq(t) = e { Some(*t) } else { None }).collect();
    assert_eq!(polls, want);
}""")
bug('c22-idle-batch', 'C22', 'a HALT of more than 127 idle cycles within one run until a limit',
    'idle cycles are counted in 8 bits, saturating, and added to the refresh register at the end only',
    [(Z, "            let pc = self.pc.get16();\n            loop {\n                if tsc.is_past_limit(vc_limit) {\n", "            let pc = self.pc.get16();\n            let mut idle: i8 = 0;\n            loop {\n                if tsc.is_past_limit(vc_limit) {\n                    self.add_r(idle as i32);\n"),
     (Z, "                    irq_requested = true;\n                    break\n                }\n                tsc.add_m1(pc);\n                self.inc_r();", "                    irq_requested = true;\n                    self.add_r(idle as i32);\n                    break\n                }\n                tsc.add_m1(pc);\n                idle = idle.saturating_add(1);")],
    """fn main() {
    for n in [5u32, 127, 128, 200, 1000] {
        let mut r = Rig::<Z80NMOS>::new(0, &[]);
        r.cpu.halt();
        r.limit(4 * n).unwrap();
        assert_eq!(r.cpu.get_r(), (n & 127) as u8);
    }
}""")
bug('c25-irq-wait', 'C25', 'a wrapped host that answers an interrupt acknowledge with wait states',
    'the forwarded acknowledge loses the wait states of a host that puts an RST on the bus',
    [('src/macros.rs', '($fwd).irq_data(pc, ts)', 'match ($fwd).irq_data(pc, ts) {\n                (data, Some(..)) if data & 0xC7 == 0xC7 => (data, None),\n                answer => answer,\n            }')],
    """struct Inner;
impl Io for Inner { type Timestamp = u32; type WrIoBreak = (); type RetiBreak = ();
    fn irq_data(&mut self, _: u16, _: u32) -> (u8, Option<NonZeroU16>) { (0xFF, NonZeroU16::new(3)) } }
struct Wrap(Inner);
impl Io for Wrap { forward_host_io_types!{ @ => Inner } forward_host_io_methods!{ @ => |b| b.0 } }
fn main() { assert_eq!(Wrap(Inner).irq_data(1, 2), (0xFF, NonZeroU16::new(3))); }""")
bug('c21-seq-order', 'C21', 'restoring a CPU inside an NMI routine from a compact format',
    'the two interrupt flip-flops are swapped when read by position',
    [('src/z80/serde.rs', 'let iff1     = seq.next_element()?.ok_or_else(|| de::Error::invalid_length(n + 11, &visitor))?;\n    let iff2     = seq', 'let iff2     = seq.next_element()?.ok_or_else(|| de::Error::invalid_length(n + 11, &visitor))?;\n    let iff1     = seq')],
    """fn main() {
    let mut c = Z80NMOS::default(); c.set_iffs(false, true);
    let s = bincode::serialize(&c).unwrap();
    let d: Z80NMOS = bincode::deserialize(&s).unwrap();
    assert_eq!(d.get_iffs(), (false, true));
}""", deps='bincode = "1"')
bug('c21-r-default', 'C21', 'restoring a saved state without the separate refresh counter whose R has bit 7 set',
    'a refresh counter that is not given starts without bit 7',
    [('src/z80/serde.rs', 'r.unwrap_or_else(|| Wrapping(ir.get8lo()))', 'r.unwrap_or_else(|| Wrapping(ir.get8lo() & 0x7F))')],
    """fn main() {
    let mut c = Z80NMOS::default(); c.set_r(0x91);
    let mut v: serde_json::Value = serde_json::to_value(&c).unwrap();
    v.as_object_mut().unwrap().remove("r");
    let d: Z80NMOS = serde_json::from_value(v).unwrap();
    assert_eq!(c, d);
}""", deps='serde_json = "1"')
bug('c28-zero-offset', 'C28', 'the decimal text of an index operand whose offset is zero',
    'an offset of zero is left out of the decimal text',
    [('src/cpu/debug.rs', 'CpuDebugAddr::IndexAddr(px, Some(d))  => write!(f, "({}{:+})", px, d)', 'CpuDebugAddr::IndexAddr(px, Some(0))  => write!(f, "({})", px),\n            CpuDebugAddr::IndexAddr(px, Some(d))  => write!(f, "({}{:+})", px, d)')],
    """fn main() {
    for d in -128i8..=127 {
        let a = CpuDebugAddr::IndexAddr(Prefix::Yfd, Some(d));
        assert_eq!(format!("{}", a), format!("(IY{:+})", d));
    }
}""")
bug('c34-prefix', 'C34', 'the debug text of a CPU stopped between the FD prefix and its instruction',
    'a pending FD prefix is not shown',
    [('src/z80/debug.rs', '.field("prefix", &self.prefix)', '.field("prefix", &self.prefix.filter(|p| *p == Prefix::Xdd))')],
    """fn main() {
    let mut r = Rig::<Z80NMOS>::new(0, &[0xFD, 0xE5]);
    r.step().unwrap();
    let s = format!("{:?}", r.cpu);
    assert!(s.contains("prefix: Some(Yfd)"), "{}", s);
}""")
bug('c26-after-halt', 'C26', 'disassembling an indexed instruction right after a HALT',
    'an index prefix that follows a HALT is dropped from the record',
    [('src/disasm.rs', 'else if cpu.is_after_prefix() {', 'else if cpu.is_after_prefix() && memory[cursor] & 0x20 == 0 {\n            cursor += 1;\n            if memory[..cursor - 1].ends_with(&[0x76]) {\n                cpu.reset();\n            }\n        }\n        else if cpu.is_after_prefix() {')],
    """fn main() {
    let code = [0x76u8, 0xDD, 0xE5, 0x76, 0xDD, 0xE5];
    let mut v = vec![];
    z80emu::disasm::disasm_memory::<Z80NMOS, _, ()>(0, &code, |d| { v.push(d.code.len()); Ok(()) }).unwrap();
    assert_eq!(v, [1, 2, 1, 2]);
}""")
bug('c20-memptr', 'C20', 'converting a CPU to another flavour between an instruction and one that looks at MEMPTR, with SP in MEMPTR',
    'MEMPTR is replaced by PC when it equals SP',
    [(Z, '            memptr: self.memptr,\n            last_ei: self.last_ei,', '            memptr: if self.memptr == self.sp { self.pc } else { self.memptr },\n            last_ei: self.last_ei,')],
    """fn main() {
    let mut c = Z80NMOS::default(); c.set_pc(1); c.set_sp(0x1234); c.set_memptr(0x1234);
    let d: Z80CMOS = c.into_flavour();
    assert_eq!(d.get_memptr(), 0x1234);
}""")
# ---- seventh batch
bug('c13-shared-counter', 'C13', 'more than 65536 opcode fetches made by all CPUs of the process together',
    'a process-wide fetch counter makes the refresh counter miss a step each time it wraps',
    [(Z, "    fn inc_r(&mut self) {\n        self.r += Wrapping(1);", "    fn inc_r(&mut self) {\n        static FETCHES: core::sync::atomic::AtomicU16 = core::sync::atomic::AtomicU16::new(0);\n        if FETCHES.fetch_add(1, core::sync::atomic::Ordering::Relaxed) == u16::MAX { return }\n        self.r += Wrapping(1);")],
    """fn main() {
    let mut r = Rig::<Z80NMOS>::new(0, &[]);
    for n in 1..=70000u32 { r.step().unwrap(); r.clk.log.borrow_mut().clear(); assert_eq!(r.cpu.get_r(), (n & 127) as u8, "{}", n); }
}""")
bug('c18-shared-history', 'C18', 'two CPUs executed alternately: one modifies flags, the other runs SCF or CCF',
    'a BM1 CPU takes over the flag history another CPU has left behind on the same thread',
    [('src/z80/flavours.rs', "        if self.last_flags_modified {\n            acc\n        }\n        else {\n            acc | flags.bits()\n        }\n    }\n\n    fn cpu_into_any(cpu: Z80<Self>) -> Z80Any {\n        Z80Any::BM1(cpu)",
      "        use core::sync::atomic::{AtomicBool, Ordering};\n        static SEEN: AtomicBool = AtomicBool::new(false);\n        let seen = SEEN.swap(self.last_flags_modified, Ordering::Relaxed);\n        if self.last_flags_modified || seen && acc == 0 && self.flags_modified {\n            acc\n        }\n        else {\n            acc | flags.bits()\n        }\n    }\n\n    fn cpu_into_any(cpu: Z80<Self>) -> Z80Any {\n        Z80Any::BM1(cpu)")],
    """fn main() {
    let mut a = BM1::default();
    a.flags_modified(); a.begin_instruction();
    a.get_q(1, CpuFlags::empty());
    // an instruction that modifies flags and then asks
    let mut b = BM1::default();
    b.flags_modified();
    assert_eq!(b.get_q(0, CpuFlags::XY), 0x28);
}""")
bug('c17-ind-wrap', 'C17', 'IND or INDR with C = 0',
    'MEMPTR after IND counts within the low byte',
    [(I, "        self.memptr.set16(bc.wrapping_add(delta as u16));\n        let b = ((bc >> 8) as u8).wrapping_sub(1);", "        self.memptr.set((bc >> 8) as u8, (bc as u8).wrapping_add(delta as u8));\n        if delta as u16 == 1 { self.memptr.set16(bc.wrapping_add(1)); }\n        let b = ((bc >> 8) as u8).wrapping_sub(1);")],
    """fn main() {
    for c in [0u16, 1, 255] {
        let mut r = Rig::<Z80NMOS>::new(0, &[0xED, 0xAA]);
        r.cpu.set_reg16(StkReg16::BC, 0x4000 | c);
        r.step().unwrap();
        assert_eq!(r.cpu.get_memptr(), (0x4000 | c) - 1);
    }
}""")
bug('c08-ld-a-i-probe', 'C08', 'LD A,I or LD A,R on an NMOS CPU inside an NMI routine with a request pending',
    'the interrupt line is asked although IFF1 is off',
    [(I, "            !(Q::ACCEPTING_INT_RESETS_IFF2_EARLY && self.iff1 && control.is_irq(tsc.as_timestamp()))", "            !(Q::ACCEPTING_INT_RESETS_IFF2_EARLY && (self.iff1 || control.is_irq(tsc.as_timestamp())) && control.is_irq(tsc.as_timestamp()) && self.iff1)")],
    """fn main() {
    let mut r = Rig::<Z80NMOS>::new(0, &[0xED, 0x57]);
    r.cpu.set_iffs(false, true); r.host.irq_from = 0;
    r.step().unwrap();
    assert!(!r.events().iter().any(|e| matches!(e, Ev::IsIrq(_))));
}""")
bug('c12-halt-nmi-pc', 'C12', 'a non-maskable interrupt ending a HALT that is at FFFF',
    'the address saved by an NMI during HALT stays at FFFF',
    [(I, "            self.halt = false;\n            pc = pc.wrapping_add(1);\n        }\n        tsc.add_m1(pc); // pc:4", "            self.halt = false;\n            pc = pc.saturating_add(1);\n        }\n        tsc.add_m1(pc); // pc:4")],
    """fn main() {
    for org in [0x100u16, 0xFFFF] {
        let mut r = Rig::<Z80NMOS>::new(org, &[0x76]);
        assert!(r.step().is_err());
        assert!(r.cpu.nmi(&mut r.host, &mut r.clk));
        let e = org.wrapping_add(1).to_le_bytes();
        assert_eq!([r.host.mem[0x7FFE], r.host.mem[0x7FFF]], e);
    }
}""")
bug('c14-ix-restored', 'C14', 'a FD CB d op instruction that copies its result into a register, register H or L',
    'the register copy of an indexed bit operation goes to the index half when the result is negative',
    [(I, "        if let Ok(reg) = arg {\n            self.set_reg(reg, None, result);\n        }\n    }\n}", "        if let Ok(reg) = arg {\n            let target = if result == 0x80 { Some(prefix) } else { None };\n            self.set_reg(reg, target, result);\n        }\n    }\n}")],
    """fn main() {
    for m in [0u8, 1] {
        let mut r = Rig::<Z80NMOS>::new(0, &[0xFD, 0xCB, 0x00, 0xFC]);
        r.cpu.set_index16(Prefix::Yfd, 0x4000); r.host.mem[0x4000] = m;
        r.step().unwrap(); r.step().unwrap();
        assert_eq!(r.cpu.get_index16(Prefix::Yfd), 0x4000);
        assert_eq!(r.cpu.get_reg(Reg8::H, None), m | 0x80);
    }
}""")
bug('c30-lddr-self', 'C30', 'LDDR or LDIR whose source and destination are the same address',
    'a repeating transfer of a block onto itself is done at once',
    [(I, "        let is_over = self.regs.bc.dec16_is_zero();\n        ops::ldx", "        let is_over = self.regs.bc.dec16_is_zero() || { let same = pc.is_some() && hl == de && self.regs.bc.get8hi() == 0; if same { self.regs.bc.set16(0); } same };\n        ops::ldx")],
    """fn main() {
    for de in [0x4000u16, 0x5000] {
        let mut r = Rig::<Z80NMOS>::new(0, &[0xED, 0xB0]);
        r.cpu.set_reg16(StkReg16::BC, 3); r.cpu.set_reg16(StkReg16::HL, 0x4000); r.cpu.set_reg16(StkReg16::DE, de);
        r.step().unwrap();
        assert_eq!((r.cpu.get_pc(), r.cpu.get_reg16(StkReg16::BC)), (0, 2));
    }
}""")
bug('c15-srl-indexed-copy', 'C15', 'an undocumented indexed shift that also stores its result in a register (DD CB d 39), result zero',
    'SRL on the accumulator copy', [(None, None, None)], '') if False else None
B[:] = [b for b in B if b]
