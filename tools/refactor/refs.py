"""Behaviour-preserving edits: (id, [(file, old, new)...]). Every check must stay quiet."""
OPS, FL, PA, IN, Z, ST, DI, DB, ZD, RG, HO, FV, AN, SE, NS, MA = ('src/z80/ops.rs', 'src/cpu/flags.rs', 'src/cpu/parse.rs', 'src/z80/internal.rs', 'src/z80.rs', 'src/z80/serde.rs',
    'src/disasm.rs', 'src/cpu/debug.rs', 'src/z80/debug.rs', 'src/cpu/registers.rs', 'src/host.rs', 'src/z80/flavours.rs', 'src/z80/any.rs', 'src/z80/serde.rs', 'src/z80/instructions.rs', 'src/z80/macros.rs')
R = []
def ref(id, *edits): R.append((id, list(edits)))

ref('ops-daa-ifs', (OPS, '''    #[allow(overlapping_range_endpoints)]
    let diff = match (cf0, high_nibble, hf0, low_nibble) {
        (false, 0x00..=0x90, false, 0x0..=0x9) => 0x00,
        (false, 0x00..=0x90, true , 0x0..=0x9) => 0x06,
        (false, 0x00..=0x80,   _  , 0xA..=0xF) => 0x06,
        (false, 0xA0..=0xF0, false, 0x0..=0x9) => 0x60,
        (true ,      _     , false, 0x0..=0x9) => 0x60,
        (true ,      _     , true , 0x0..=0x9) => 0x66,
        (true ,      _     ,   _  , 0xA..=0xF) => 0x66,
        (false, 0x90..=0xF0,   _  , 0xA..=0xF) => 0x66,
        (false, 0xA0..=0xF0, true , 0x0..=0x9) => 0x66,
        _ => debug_unreachable_unchecked!()
    };
    #[allow(overlapping_range_endpoints)]
    let cf = match (cf0, high_nibble, low_nibble) {
        (false, 0x00..=0x90, 0x0..=0x9) => false,
        (false, 0x00..=0x80, 0xA..=0xF) => false,
        (false, 0x90..=0xF0, 0xA..=0xF) => true,
        (false, 0xA0..=0xF0, 0x0..=0x9) => true,
        (true ,      _     ,     _    ) => true,
        _ => debug_unreachable_unchecked!()
    };
    #[allow(overlapping_range_endpoints)]
    let hf = match (nf0, hf0, low_nibble) {
        (false,   _  , 0x0..=0x9) => false,
        (false,   _  , 0xA..=0xF) => true,
        (true , false,     _    ) => false,
        (true , true , 0x6..=0xF) => false,
        (true , true , 0x0..=0x5) => true,
        _ => debug_unreachable_unchecked!()
    };
''', '''    let _ = high_nibble;
    let fix_low = hf0 || low_nibble > 9;
    let cf = cf0 || acc > 0x99;
    let mut diff = 0u8;
    for (on, value) in [(fix_low, 0x06u8), (cf, 0x60)] {
        if on {
            diff += value;
        }
    }
    let hf = if nf0 { hf0 && low_nibble < 6 } else { low_nibble > 9 };
'''))
ref('ops-wide-sums', (OPS, '''    let (rval, cf) = val.overflowing_add(add);
    let vf = (val as i8).checked_add(add as i8).is_none();
    let zf = rval == 0;
    *flags = CpuFlags::mask_nh_add(val, add) |''', '''    let wide = u16::from(val) + u16::from(add);
    let rval = (wide & 0xFF) as u8;
    let cf = wide > 0xFF;
    let vf = !(val ^ add) & (val ^ rval) & 0x80 != 0;
    let zf = rval.trailing_zeros() == 8;
    *flags = CpuFlags::mask_nh_add(val, add) |'''),
 (OPS, '''    let cf0 = flags.cf();
    let resu = (val as u32).wrapping_add(add as u32).wrapping_add(u32::from(cf0));
    let cf = resu & CARRY16 != 0;
    let (vali, vf) = (val as i16).overflowing_add(add as i16);
    let vf = vf ^ vali.checked_add(i16::from(cf0)).is_none();
    let rval = resu as u16;
''', '''    let cf0 = flags.cf();
    let (r0, c0) = val.overflowing_add(add);
    let (rval, c1) = r0.overflowing_add(cf0 as u16);
    let cf = c0 | c1;
    let exact = i32::from(val as i16) + i32::from(add as i16) + i32::from(cf0);
    let vf = i16::try_from(exact).is_err();
    let _ = CARRY16;
'''),
 (OPS, '''    let resu = (val as u16).wrapping_sub(sub as u16).wrapping_sub(u16::from(cf0));
    let cf = resu & CARRY8 != 0;
    let (vali, vf) = (val as i8).overflowing_sub(sub as i8);
    let vf = vf ^ vali.checked_sub(i8::from(cf0)).is_none();
    let rval = resu as u8;
''', '''    let exact = i16::from(val) - i16::from(sub) - i16::from(cf0);
    let cf = exact < 0;
    let signed = i16::from(val as i8) - i16::from(sub as i8) - i16::from(cf0);
    let vf = !(-128..=127).contains(&signed);
    let rval = exact.rem_euclid(256) as u8;
'''),
 (OPS, '''    let rval = val.wrapping_add(1);
    let vf = (val as i8).checked_add(1).is_none();
''', '''    let rval = if val == u8::MAX { 0 } else { val + 1 };
    let vf = val == 0x7F;
'''))
ref('ops-rotates', (OPS, '''pub fn rlc(val: u8, flags: &mut CpuFlags) -> u8 {
    let val = val.rotate_left(1);
    let cf = val & 1 != 0;
    *flags = CpuFlags::mask_bitops(val, false, cf);
    val
}''', '''pub fn rlc(val: u8, flags: &mut CpuFlags) -> u8 {
    shifted(val << 1 | val >> 7, val > 0x7F, flags)
}

/// Sets flags after a shift.
fn shifted(val: u8, carry: bool, flags: &mut CpuFlags) -> u8 {
    *flags = CpuFlags::mask_bitops(val, false, carry);
    val
}'''), (OPS, '''    let cf = val & 1 != 0;
    let val = ((val as i8) >> 1) as u8;
    *flags = CpuFlags::mask_bitops(val, false, cf);
    val
''', '''    shifted(val / 2 + (val & 0x80), val % 2 == 1, flags)
'''), (OPS, '''    let oth = oth.rotate_left(4);
    let (acc, oth) = ((acc & HALF8_MASK_HI)|(oth & HALF8_MASK_LO), (oth & HALF8_MASK_HI)|(acc & HALF8_MASK_LO));
    *flags''', '''    let twelve = (u16::from(oth) << 4) | u16::from(acc & HALF8_MASK_LO);
    let (acc, oth) = ((acc & HALF8_MASK_HI) + (twelve >> 8) as u8, twelve as u8);
    *flags'''), (OPS, '''pub fn set(b: u32, v: u8) -> u8 {  (1 << b) | v }''', '''pub fn set(b: u32, v: u8) -> u8 {
    const BITS: [u8; 8] = [1, 2, 4, 8, 16, 32, 64, 128];
    BITS[b as usize] | v
}'''), (OPS, '''    let (k, hcf) = io.overflowing_add(m);
    let nf = io & (1<<7) != 0;''', '''    let sum = u16::from(io) + u16::from(m);
    let (k, hcf) = (sum as u8, sum >> 8 != 0);
    let nf = (io as i8) < 0;'''))
ref('flags-table', (FL, '''    pub fn parity(res: u8) -> Self {
        Self::mask_pvf(res.count_ones() & 1 == 0)
    }''', '''    pub fn parity(res: u8) -> Self {
        const EVEN: [bool; 256] = {
            let mut t = [false; 256];
            let mut i = 0;
            while i < 256 {
                t[i] = (i as u8).count_ones() % 2 == 0;
                i += 1;
            }
            t
        };
        Self::mask_pvf(EVEN[usize::from(res)])
    }'''), (FL, '''        if res.count_ones() & 1 == 0 {
            bits |= CpuFlags::P;
        }
        bits''', '''        let mut x = res;
        let mut odd = false;
        while x != 0 {
            x &= x - 1;
            odd = !odd;
        }
        if !odd {
            bits |= CpuFlags::P;
        }
        bits'''), (FL, '''        if (tgt & CpuFlags::HMASK.bits()).wrapping_sub(sub & CpuFlags::HMASK.bits()) & CpuFlags::H.bits() != 0 {
            CpuFlags::H|CpuFlags::N
        }
        else {
            CpuFlags::N
        }''', '''        let borrow = (tgt ^ sub ^ tgt.wrapping_sub(sub)) & 0x10;
        CpuFlags::from_bits_truncate(borrow) | CpuFlags::N'''), (FL, '''        let mut bits = CpuFlags::empty();
        if cf {
            bits |= CpuFlags::C;
        }
        if vf {
            bits |= CpuFlags::V;
        }
        if zf {
            bits |= CpuFlags::Z;
        }
        bits''', '''        [(cf, CpuFlags::C), (vf, CpuFlags::V), (zf, CpuFlags::Z)]
            .iter()
            .filter(|(on, _)| *on)
            .fold(CpuFlags::empty(), |acc, (_, flag)| acc | *flag)'''))
ref('regs-shifts', (RG, '''        u16::from_le_bytes(self.0)
''', '''        u16::from(self.0[0]) | u16::from(self.0[1]) << 8
'''), (RG, '''        let val = self.get16().wrapping_sub(1);
        self.set16(val);
        val == 0
''', '''        self.dec16();
        self.0.iter().all(|half| *half == 0)
'''), (RG, '''        unsafe {
            let ptr = self.ptr8hi();
            *ptr = op(*ptr);
        }
    }

    /// Applies op to the 8-bit low''', '''        let val = op(self.get8hi());
        self.set8hi(val);
    }

    /// Applies op to the 8-bit low'''), (RG, '''        unsafe { self.0.as_mut_ptr().offset(1) }''', '''        &mut self.0[1]'''))
ref('z80-reset-loop', (Z, '''        self.regs.bc.set16(0);
        self.regs.de.set16(0);
        self.regs.hl.set16(0);
        self.regs_alt.bc.set16(0);
        self.regs_alt.de.set16(0);
        self.regs_alt.hl.set16(0);
        self.index.ix.set16(0);
        self.index.iy.set16(0);
        self.pc.set16(0);
''', '''        for pair in [
            &mut self.regs.bc, &mut self.regs.de, &mut self.regs.hl,
            &mut self.regs_alt.bc, &mut self.regs_alt.de, &mut self.regs_alt.hl,
            &mut self.index.ix, &mut self.index.iy, &mut self.pc,
        ] {
            *pair = RegisterPair::default();
        }
'''), (Z, '''        match reg {
            Reg8::B => self.regs.bc.get8hi(),
            Reg8::C => self.regs.bc.get8lo(),
            Reg8::D => self.regs.de.get8hi(),
            Reg8::E => self.regs.de.get8lo(),
            Reg8::H => match prefix {
                None => self.regs.hl.get8hi(),
                Some(Prefix::Xdd) => self.index.ix.get8hi(),
                Some(Prefix::Yfd) => self.index.iy.get8hi(),
            },
            Reg8::L => match prefix {
                None => self.regs.hl.get8lo(),
                Some(Prefix::Xdd) => self.index.ix.get8lo(),
                Some(Prefix::Yfd) => self.index.iy.get8lo(),
            }
            Reg8::A => self.af.get8hi(),
        }''', '''        let hl = match prefix {
            Some(prefix) => self.index16_ref(prefix),
            None => &self.regs.hl,
        };
        let pair = match reg {
            Reg8::B | Reg8::C => &self.regs.bc,
            Reg8::D | Reg8::E => &self.regs.de,
            Reg8::H | Reg8::L => hl,
            Reg8::A => return self.af.get8hi(),
        };
        let (hi, lo) = pair.get();
        if reg.to_code() & 1 == 0 { hi } else { lo }'''), (Z, '''        let r = self.ir.get8lo();
        r & 0x80 | self.r.0 & 0x7F''', '''        self.get_ir() as u8'''))
ref('z80-exec', (Z, '''        if self.is_irq_allowed() && control.is_irq(tsc.as_timestamp()) {
            return self.irq_no_check::<M,T,F>(control, tsc, debug);
        }
        if self.halt {
            tsc.add_m1(self.pc.get16());
            self.inc_r();
            Ok(())
        }
        else {
            // let code: u8 = fetch_next_opcode_ext!(self, control, pc, tsc);
            let (pc, code) = self.fetch_next_opcode(control, tsc, Wrapping(self.pc.get16()));
            self.pc.set16(pc.0);
            self.execute_instruction::<M,T,F>(control, tsc, debug, code)
        }''', '''        let requested = match self.is_irq_allowed() {
            true => control.is_irq(tsc.as_timestamp()),
            false => false,
        };
        match (requested, self.halt) {
            (true, _) => self.irq_no_check::<M,T,F>(control, tsc, debug),
            (false, true) => {
                self.inc_r();
                let _ = tsc.add_m1(self.get_pc());
                Ok(())
            }
            (false, false) => {
                let here = Wrapping(self.pc.get16());
                let (next, code) = self.fetch_next_opcode(control, tsc, here);
                self.set_pc(next.0);
                self.execute_instruction::<M,T,F>(control, tsc, debug, code)
            }
        }'''), (Z, '''            loop {
                if tsc.is_past_limit(vc_limit) {
                    return Ok(());
                }
                if self.is_irq_allowed() && control.is_irq(tsc.as_timestamp()) {
                    irq_requested = true;
                    break
                }
                tsc.add_m1(pc);
                self.inc_r();
            }
''', '''            while !irq_requested {
                if tsc.is_past_limit(vc_limit) {
                    return Ok(());
                }
                if self.is_irq_allowed() {
                    irq_requested = control.is_irq(tsc.as_timestamp());
                }
                if !irq_requested {
                    self.inc_r();
                    tsc.add_m1(pc);
                }
            }
'''), (Z, '''        match reason {
            LoopExitReason::Halt => Err(BreakCause::Halt),
            LoopExitReason::WriteIo(cause) => Err(BreakCause::WriteIo(cause)),
            LoopExitReason::Reti(cause) => Err(BreakCause::Reti(cause)),
            _ => Ok(()),
        }''', '''        let cause = match reason {
            LoopExitReason::Halt => Some(BreakCause::Halt),
            LoopExitReason::WriteIo(cause) => Some(BreakCause::WriteIo(cause)),
            LoopExitReason::Reti(cause) => Some(BreakCause::Reti(cause)),
            LoopExitReason::EnableInt | LoopExitReason::LimitReached | LoopExitReason::Irq => None,
        };
        cause.map_or(Ok(()), Err)'''))
ref('internal-helpers', (IN, '''        let val = control.read_mem(hl, tsc.add_mreq(hl));
        control.write_mem(de, val, tsc.add_mreq(de));
''', '''        let ts = tsc.add_mreq(hl);
        let val = control.read_mem(hl, ts);
        let ts = tsc.add_mreq(de);
        control.write_mem(de, val, ts);
'''), (IN, '''        self.regs.hl.set16(hl.wrapping_add(delta as u16));
        self.regs.de.set16(de.wrapping_add(delta as u16));
        let is_over = self.regs.bc.dec16_is_zero();
''', '''        let is_over = self.regs.bc.dec16_is_zero();
        for pair in [&mut self.regs.de, &mut self.regs.hl] {
            match delta {
                BlockDelta::Increase => pair.inc16(),
                BlockDelta::Decrease => pair.dec16(),
            }
        }
'''), (IN, '''        let sp = self.sp.get16().wrapping_sub(1);
        control.write_mem(sp, vhi, tsc.add_mreq(sp));
        let sp = sp.wrapping_sub(1);
        control.write_mem(sp, vlo, tsc.add_mreq(sp));
        self.sp.set16(sp);
''', '''        for byte in [vhi, vlo] {
            self.sp.dec16();
            let sp = self.sp.get16();
            control.write_mem(sp, byte, tsc.add_mreq(sp));
        }
'''), (IN, '''        if let Some(pc) = pc {
            if b != 0 {
                // tsc.add_no_mreq::<{NO_MREQ_X5.get()}>(hl);
                tsc.add_no_mreq(hl, NO_MREQ_X5);
                return Some(pc - Wrapping(2))
            }
        }
        None
''', '''        pc.filter(|_| b != 0).map(|pc| {
            tsc.add_no_mreq(hl, NO_MREQ_X5);
            pc - Wrapping(2)
        })
'''), (IN, '''        unsafe {
            let ptr = self.reg8_ptr(tgt, prefix);
            *ptr = op(*ptr);
        }''', '''        let val = op(self.get_reg(tgt, prefix));
        self.set_reg(tgt, prefix, val);'''), (IN, '''        let (data, wait_states) = control.read_io(bc, tsc.add_io(bc));
        if let Some(ws) = wait_states {
            tsc.add_wait_states(bc, ws);
        }
        ops::io(data, flags);''', '''        let data = Self::port_in(control, tsc, bc);
        ops::io(data, flags);'''), (IN, '''        let (data, wait_states) = control.read_io(port, tsc.add_io(port));
        if let Some(ws) = wait_states {
            tsc.add_wait_states(port, ws);
        }
        self.af.set8hi(data);
    }
''', '''        self.af.set8hi(Self::port_in(control, tsc, port));
    }

    fn port_in<M, T>(control: &mut M, tsc: &mut T, port: u16) -> u8
        where M: Memory<Timestamp=T::Timestamp> + Io<Timestamp=T::Timestamp>, T: Clock
    {
        let (data, wait_states) = control.read_io(port, tsc.add_io(port));
        wait_states.into_iter().for_each(|ws| tsc.add_wait_states(port, ws));
        data
    }
'''))
ref('parse-tables', (PA, '''    pub const fn is_satisfied(self, flags: CpuFlags) -> bool {
        match self {
            Condition::NZ =>  !flags.contains(CpuFlags::Z),
            Condition::Z  =>  flags.contains(CpuFlags::Z),
            Condition::NC =>  !flags.contains(CpuFlags::C),
            Condition::C  =>  flags.contains(CpuFlags::C),
            Condition::PO =>  !flags.contains(CpuFlags::PV),
            Condition::PE =>  flags.contains(CpuFlags::PV),
            Condition::P  =>  !flags.contains(CpuFlags::S),
            Condition::M  =>  flags.contains(CpuFlags::S),
        }
    }''', '''    pub const fn is_satisfied(self, flags: CpuFlags) -> bool {
        const MASKS: [u8; 4] = [
            CpuFlags::Z.bits(), CpuFlags::C.bits(), CpuFlags::PV.bits(), CpuFlags::S.bits()
        ];
        let code = self.to_code() >> 3;
        let is_set = flags.bits() & MASKS[(code >> 1) as usize] != 0;
        is_set == (code & 1 == 1)
    }'''), (PA, '''        match s {
            "NZ" => Ok(Condition::NZ),
            "Z"  => Ok(Condition::Z),
            "NC" => Ok(Condition::NC),
            "C"  => Ok(Condition::C),
            "PO" => Ok(Condition::PO),
            "PE" => Ok(Condition::PE),
            "P"  => Ok(Condition::P),
            "M"  => Ok(Condition::M),
            _ => Err(())
        }''', '''        (0..8u8).map(|n| Condition::from_code(n << 3))
            .find(|cond| <&str>::from(*cond) == s)
            .ok_or(())'''), (PA, '''        match code {
            0xDD => Ok(Prefix::Xdd),
            0xFD => Ok(Prefix::Yfd),
            _ => Err(())
        }''', '''        for prefix in [Prefix::Xdd, Prefix::Yfd] {
            if prefix.to_code() == code {
                return Ok(prefix);
            }
        }
        Err(())'''), (PA, '''        match code & 0b11_000_000 {
            0b00_000_000 => BitOps::Rot(Rot::from(code), arg),
            0b01_000_000 => BitOps::Bit(parse_code_bitnum(code), arg),
            0b10_000_000 => BitOps::Res(parse_code_bitnum(code), arg),
            0b11_000_000 => BitOps::Set(parse_code_bitnum(code), arg),
            _ => unsafe { core::hint::unreachable_unchecked() }
        }''', '''        if code < 0x40 {
            return BitOps::Rot(Rot::from(code), arg);
        }
        let make = match code >> 6 {
            1 => BitOps::Bit,
            2 => BitOps::Res,
            _ => BitOps::Set,
        };
        make(parse_code_bitnum(code), arg)'''))
ref('disasm-loop', (DI, '''    while cursor < memory.len() {
        let pc = pc.wrapping_add(cursor as u16);
        cpu.set_pc(pc);
        let _ = cpu.execute_next(&mut Mem(pc, &memory[cursor..]), &mut tsc,
            Some(|deb: CpuDebug| {
                cursor += deb.code.len();
                if deb.prefix.is_some() {
                    cursor -= 1;
                }
                dbg = Some(deb);
            })
        );
        if cursor > memory.len() {
            break;
        }
        else if let Some(deb) = dbg.take() {
            debug(deb)?;
        }
        else if cpu.is_after_prefix() {
            cursor += 1;
        }
        else { // reset after halt
            cpu.reset();
        }
    }
    Ok(())''', '''    loop {
        let rest = match memory.get(cursor..) {
            None | Some([]) => return Ok(()),
            Some(rest) => rest,
        };
        let pc = pc.wrapping_add(cursor as u16);
        cpu.set_pc(pc);
        let mut chunk = Mem(pc, rest);
        let _ = cpu.execute_next(&mut chunk, &mut tsc, Some(|deb: CpuDebug| dbg = Some(deb)));
        match dbg.take() {
            Some(deb) => {
                let len = deb.code.len() - usize::from(deb.prefix.is_some());
                if len > rest.len() {
                    return Ok(());
                }
                cursor += len;
                if let Err(err) = debug(deb) {
                    return Err(err);
                }
            }
            None if cpu.is_after_prefix() => cursor += 1,
            None => cpu.reset(), // after halt
        }
    }'''), (DI, '''        *self.1.get(addr.wrapping_sub(self.0) as usize).unwrap_or(&0xff)''', '''        let index = usize::from(addr.wrapping_sub(self.0));
        if index < self.1.len() { self.1[index] } else { 0xff }'''))
ref('debug-text', (DB, '''            CpuDebugAddr::IndexAddr(px, Some(d@-128..=-1)) => if f.alternate() {
                write!(f, "({}-{:#04x})", px, 0u8.wrapping_sub(*d as u8))
            }
            else {
                write!(f, "({}-{:02x}h)", px, 0u8.wrapping_sub(*d as u8))
            }''', '''            CpuDebugAddr::IndexAddr(px, Some(d)) => {
                let d = d.unsigned_abs();
                if f.alternate() {
                    write!(f, "({px}-{d:#0width$x})", width = 4)
                }
                else {
                    f.write_str("(")?;
                    fmt::Display::fmt(px, f)?;
                    write!(f, "-{:02x}h)", d)
                }
            }'''), (DB, '''        write!(f, "{:>5} {:4} {:14} {:?}", self.pc, self.mnemonic, self.args, self.code.as_slice())''',
 '''        let CpuDebug { pc, mnemonic, args, code, .. } = self;
        write!(f, "{pc:>5} {mnemonic:4} {args:14} ")?;
        f.debug_list().entries(code.iter()).finish()'''), (DB, '''                CpuDebugArgs::Double(arg1, arg2) => write!(f, "{}, {}", arg1, arg2),''', '''                CpuDebugArgs::Double(arg1, arg2) => {
                    for (sep, arg) in [("", arg1), (", ", arg2)] {
                        f.write_str(sep)?;
                        write!(f, "{}", arg)?;
                    }
                    Ok(())
                }'''), (ZD, '''        if let Some(pfx) = prefix {
            code.push(pfx.to_code());
        }
        code.extend(bytes.iter().copied());
        let pc = (pc - Wrapping(code.len() as u16)).0;''', '''        for byte in prefix.map(Prefix::to_code).into_iter().chain(bytes.iter().copied()) {
            code.push(byte);
        }
        let pc = pc.0.wrapping_sub(bytes.len() as u16 + u16::from(prefix.is_some()));'''))
ref('host-helper', (HO, '''        let ts = (self.0 + Wrapping(INT_IORQ_LOW_TS.into())).0;
        self.0 += Wrapping(IRQ_ACK_CYCLE_TS.into());
        ts
    }''', '''        let before = self.0;
        self.0 = before + Wrapping(IRQ_ACK_CYCLE_TS.into());
        (before + Wrapping(T::from(INT_IORQ_LOW_TS))).0
    }'''), (HO, '''        (self.0).0 >= limit
''', '''        !matches!(self.0.0.partial_cmp(&limit), Some(core::cmp::Ordering::Less) | None)
'''), (FV, '''    fn begin_instruction(&mut self) {
        self.last_flags_modified = self.flags_modified;
        self.flags_modified = false;
    }
    #[inline(always)]
    fn flags_modified(&mut self) {
        self.flags_modified = true;
    }
    #[inline(always)]
    fn get_q(&self, acc: u8, flags: CpuFlags) -> u8 {
        if self.last_flags_modified {
            acc
        }
        else {
            acc | flags.bits()
        }
    }

    fn cpu_into_any(cpu: Z80<Self>) -> Z80Any {
        Z80Any::NMOS(cpu)''', '''    fn begin_instruction(&mut self) {
        self.last_flags_modified = core::mem::replace(&mut self.flags_modified, false);
    }
    #[inline(always)]
    fn flags_modified(&mut self) {
        self.flags_modified |= true;
    }
    #[inline(always)]
    fn get_q(&self, acc: u8, flags: CpuFlags) -> u8 {
        let kept = if self.last_flags_modified { CpuFlags::empty() } else { flags };
        acc | kept.bits()
    }

    fn cpu_into_any(cpu: Z80<Self>) -> Z80Any {
        Z80Any::NMOS(cpu)'''))
ref('any-ways', (AN, '''        if let Z80Any::NMOS(..) = self {
            return true
        }
        false''', '''        self.tag() == NMOS::tag()'''), (AN, '''        if tag.eq_ignore_ascii_case("NMOS") {
            Some(Self::new_nmos())
        }
        else if tag.eq_ignore_ascii_case("CMOS") {
            Some(Self::new_cmos())
        }
        else if tag.eq_ignore_ascii_case("BM1") {
            Some(Self::new_bm1())
        }
        else {
            None
        }''', '''        let makers: [(&str, fn() -> Z80Any); 3] = [
            (NMOS::tag(), Self::new_nmos), (CMOS::tag(), Self::new_cmos), (BM1::tag(), Self::new_bm1)
        ];
        makers.iter().find(|(name, _)| name.eq_ignore_ascii_case(tag)).map(|(_, make)| make())'''))
ref('serde-ways', (SE, '''                if let Some(17) = seq.size_hint() {
                    visit_seq(self, seq, 0)
                }
                else {
                    seq.next_element_seed''', '''                let legacy = matches!(seq.size_hint(), Some(n) if n == Z80_FIELDS.len() - 1);
                if legacy {
                    visit_seq(self, seq, 0)
                }
                else {
                    seq.next_element_seed'''), (SE, '''            if $val.is_some() {
                return Err(de::Error::duplicate_field($label));
            }
            $val = Some($map.next_value()?);''', '''            match $val {
                Some(_) => return Err(de::Error::duplicate_field($label)),
                None => { $val = Some($map.next_value()?); }
            }'''), (SE, '''        match VARIANTS.iter().find(|&&name| name == value) {
            Some(name) => Ok(name),
            None if self.any => Ok(DEFAULT_VARIANT),
            None => Err(E::unknown_variant(value, VARIANTS))
        }''', '''        for name in VARIANTS.iter().copied() {
            if name.len() == value.len() && name.bytes().eq(value.bytes()) {
                return Ok(name);
            }
        }
        if self.any {
            return Ok(DEFAULT_VARIANT);
        }
        Err(E::unknown_variant(value, VARIANTS))'''), (RG, '''        if value >= i64::from(i16::MIN) && value <= i64::from(i16::MAX) {
            Ok(RegisterPair::from(value as i16))
        } else {
            Err(E::custom(format_args!("RegisterPair out of range: {}", value)))
        }''', '''        i16::try_from(value)
            .map(RegisterPair::from)
            .map_err(|_| E::custom(format_args!("RegisterPair out of range: {}", value)))'''), (RG, '''        let body = if let Some(rest) = s.strip_prefix('$') {
            rest
        }
        else if let Some(rest) = s.strip_prefix("0x") {
            rest
        }
        else {
            s
        };''', '''        let body = s.strip_prefix('$').or_else(|| s.strip_prefix("0x")).unwrap_or(s);'''))

def between(f, a, b, new):
    """replace the text from `a` up to (not including) `b`"""
    t = open('/repo/' + f).read(); i = t.index(a); j = t.index(b, i)
    return (f, t[i:j], new)

# run-until-limit written over single steps
ref('limit-steps', between(Z, '        const DEBUG: Option<CpuDebugFn> = None;\n\n        let mut irq_requested', '    }\n}\n\nimpl<Q: Flavour> Z80<Q> {\n    #[inline(always)]\n    fn execute_with_limit_loop',
'''        loop {
            if tsc.is_past_limit(vc_limit) {
                return Ok(());
            }
            self.execute_next::<M, T, CpuDebugFn>(control, tsc, None)?;
        }
'''), (Z, '    fn execute_with_limit_loop<M, T>', '    #[allow(dead_code)]\n    fn execute_with_limit_loop<M, T>'))

# run-until-limit with its state in one enumeration
ref('limit-machine', between(Z, '        const DEBUG: Option<CpuDebugFn> = None;\n\n        let mut irq_requested', '    }\n}\n\nimpl<Q: Flavour> Z80<Q> {\n    #[inline(always)]\n    fn execute_with_limit_loop',
'''        const DEBUG: Option<CpuDebugFn> = None;
        #[derive(Clone, Copy, PartialEq)]
        enum Stage { Idle, Poll, Accept, Run }
        if !self.halt && tsc.is_past_limit(vc_limit) {
            return Ok(());
        }
        let mut stage = if self.halt { Stage::Idle } else { Stage::Poll };
        loop {
            stage = match stage {
                Stage::Idle if tsc.is_past_limit(vc_limit) => return Ok(()),
                Stage::Idle => {
                    if is_int_allowed(self.prefix, self.last_ei) && self.iff1 && control.is_irq(tsc.as_timestamp()) {
                        Stage::Accept
                    }
                    else {
                        tsc.add_m1(self.pc.get16());
                        self.inc_r();
                        Stage::Idle
                    }
                }
                Stage::Poll => {
                    if self.last_ei {
                        self.last_ei = false;
                        Stage::Run
                    }
                    else if self.is_irq_allowed() && control.is_irq(tsc.as_timestamp()) {
                        Stage::Accept
                    }
                    else {
                        Stage::Run
                    }
                }
                Stage::Accept => {
                    let res = self.irq_no_check::<M,T,_>(control, tsc, DEBUG);
                    if res.is_err() || tsc.is_past_limit(vc_limit) {
                        return res;
                    }
                    self.last_ei = false;
                    Stage::Run
                }
                Stage::Run => match self.execute_with_limit_loop(control, tsc, vc_limit) {
                    LoopExitReason::Irq => Stage::Accept,
                    LoopExitReason::Halt => return Err(BreakCause::Halt),
                    LoopExitReason::WriteIo(cause) => return Err(BreakCause::WriteIo(cause)),
                    LoopExitReason::Reti(cause) => return Err(BreakCause::Reti(cause)),
                    _ => return Ok(()),
                },
            };
        }
'''))

ref('irq-merged', between(IN, '        self.disable_interrupts();\n        self.inc_r();\n        let mut pc = self.pc.get16();', '    /// Force NMI',
'''        (self.iff1, self.iff2) = (false, false);
        let pc = self.leave_halt();
        self.pc.set16(pc);
        let acknowledged = tsc.add_irq(pc);
        let (vector, wait_states) = control.irq_data(pc, acknowledged);
        wait_states.into_iter().for_each(|ws| tsc.add_wait_states(pc, ws));
        let code = match self.im {
            InterruptMode::Mode0 => vector,
            InterruptMode::Mode1 => opconsts::RST_38H_OPCODE,
            InterruptMode::Mode2 => {
                let ir = self.get_ir();
                tsc.add_no_mreq(ir, NO_MREQ_X1);
                self.push16(pc, control, tsc);
                self.pc.set16(u16::from_be_bytes([self.get_i(), vector]));
                opconsts::JP_OPCODE
            }
        };
        self.execute_instruction::<M,T,F>(control, tsc, debug, code)
    }

    /// Counts the refresh of an acknowledge; ends HALT, answering the address to resume at.
    fn leave_halt(&mut self) -> u16 {
        self.inc_r();
        let halted = core::mem::replace(&mut self.halt, false);
        self.pc.get16().wrapping_add(halted as u16)
    }

'''), between(IN, '        self.last_ei = false;\n        self.iff1 = false;\n        self.inc_r();', '        tsc.add_m1(pc); // pc:4',
'''        self.iff1 = false;
        self.last_ei = self.iff1;
        let pc = self.leave_halt();
'''))

ref('blocks-merged', between(IN, '        let hl = self.regs.hl.get16();\n        let val = control.read_mem(hl, tsc.add_mreq(hl));\n        // tsc.add_no_mreq::<{NO_MREQ_X5.get()}>(hl);\n        tsc.add_no_mreq(hl, NO_MREQ_X5);\n        self.regs.hl.set16(hl.wrapping_add(delta as u16));\n        let is_over', '    #[inline(never)]\n    pub(super) fn block_in<M, T>',
'''        let hl = self.regs.hl.get16();
        let step = delta as i8 as i16 as u16;
        let val = { let ts = tsc.add_mreq(hl); control.read_mem(hl, ts) };
        tsc.add_no_mreq(hl, NO_MREQ_X5);
        let left = self.regs.bc.get16().wrapping_sub(1);
        self.regs.bc = left.into();
        self.regs.hl.add16(step);
        let found_or_done = ops::cpx(self.af.get8hi(), val, left == 0, flags);
        self.flavour.flags_modified();
        let again = pc.filter(|_| !found_or_done);
        match again {
            Some(_) => tsc.add_no_mreq(hl, NO_MREQ_X5),
            None => self.memptr.add16(step),
        }
        again.map(|pc| {
            let start = pc - Wrapping(2);
            self.memptr.set16((start + Wrapping(1)).0);
            start
        })
    }

'''), between(IN, '        let hl = self.regs.hl.get16();\n        let data = control.read_mem(hl, tsc.add_mreq(hl));\n        let (b, c) = self.regs.bc.get();', '    #[inline(always)]\n    pub(super) fn op8(&mut self',
'''        let hl = self.regs.hl.get16();
        let at = tsc.add_mreq(hl);
        let data = control.read_mem(hl, at);
        self.regs.hl.add16(delta as u16);
        self.regs.bc.op8hi(|b| b.wrapping_sub(1));
        let bc = self.regs.bc.get16();
        let b = self.regs.bc.get8hi();
        self.memptr = self.regs.bc;
        self.memptr.add16(delta as u16);
        ops::iox(data, b, self.regs.hl.get8lo(), flags);
        self.flavour.flags_modified();
        let at = tsc.add_io(bc);
        let answer = control.write_io(bc, data, at);
        if answer.1.is_some() {
            tsc.add_wait_states(bc, answer.1.unwrap());
        }
        let back = match (pc, b) {
            (None, _) | (_, 0) => None,
            (Some(pc), _) => {
                tsc.add_no_mreq(bc, NO_MREQ_X5);
                Some(pc - Wrapping(2))
            }
        };
        (answer.0, back)
    }

'''))

# a register pair kept as one number
t = open('/repo/' + RG).read()
ref('pair-as-word', (RG, 'pub struct RegisterPair([u8;2]);', '#[repr(transparent)]\npub struct RegisterPair(u16);\nconst HI: isize = if cfg!(target_endian = "little") { 1 } else { 0 };'),
 (RG, '        unsafe { self.0.as_mut_ptr().offset(1) }', '        unsafe { (&mut self.0 as *mut u16 as *mut u8).offset(HI) }'),
 (RG, '        unsafe { self.0.as_mut_ptr().offset(0) }', '        unsafe { (&mut self.0 as *mut u16 as *mut u8).offset(1 - HI) }'),
 (RG, '        u16::from_le_bytes(self.0)\n', '        self.0\n'),
 (RG, '        self.0 = val.to_le_bytes();', '        self.0 = val;'),
 (RG, '        let [_, hi] = self.0;\n        hi', '        (self.0 >> 8) as u8'),
 (RG, '        let [lo, _] = self.0;\n        lo', '        self.0 as u8'),
 (RG, '        self.0[1] = val;', '        self.0 = self.0 & 0xFF | (val as u16) << 8;'),
 (RG, '        self.0[0] = val;', '        self.0 = self.0 & 0xFF00 | val as u16;'),
 (RG, '        let [lo, hi] = self.0;\n        (hi, lo)', '        let [hi, lo] = self.0.to_be_bytes();\n        (hi, lo)'),
 (RG, '        self.0 = [lo, hi];', '        self.0 = (hi as u16) << 8 | lo as u16;'),
 (RG, '        RegisterPair(uint.to_le_bytes())', '        RegisterPair(uint)'),
 (RG, '        RegisterPair(int.to_le_bytes())', '        RegisterPair(int as u16)'),
 (RG, '        RegisterPair(pair)', '        RegisterPair(u16::from_le_bytes(pair))'),
 (RG, '        RegisterPair([lo, hi])', '        RegisterPair(u16::from_be_bytes([hi, lo]))'))

# the disassembler with its state in cells and the memory as a subslice
ref('disasm-cells', (DI, '''    while cursor < memory.len() {
        let pc = pc.wrapping_add(cursor as u16);
        cpu.set_pc(pc);
        let _ = cpu.execute_next(&mut Mem(pc, &memory[cursor..]), &mut tsc,
            Some(|deb: CpuDebug| {
                cursor += deb.code.len();
                if deb.prefix.is_some() {
                    cursor -= 1;
                }
                dbg = Some(deb);
            })
        );
        if cursor > memory.len() {
            break;
        }
        else if let Some(deb) = dbg.take() {
            debug(deb)?;
        }
        else if cpu.is_after_prefix() {
            cursor += 1;
        }
        else { // reset after halt
            cpu.reset();
        }
    }
    Ok(())''', '''    let seen = core::cell::Cell::new(0usize);
    loop {
        let rest = match memory.split_at_checked(cursor) {
            Some((_, rest)) if !rest.is_empty() => rest,
            _ => return Ok(()),
        };
        let at = pc.wrapping_add(cursor as u16);
        cpu.set_pc(at);
        seen.set(0);
        let mut view = Mem(at, rest);
        let hook = |deb: CpuDebug| {
            let len = deb.code.len();
            seen.set(if deb.prefix.is_some() { len - 1 } else { len });
            dbg.replace(deb);
        };
        cpu.execute_next(&mut view, &mut tsc, Some(hook)).ok();
        match dbg.take() {
            Some(_) if seen.get() > rest.len() => return Ok(()),
            Some(deb) => {
                cursor += seen.get();
                debug(deb)?
            }
            None if cpu.get_prefix().is_some() => cursor += 1,
            None => cpu.reset(),
        }
    }'''))

DZ = 'src/z80/debug.rs'
ref('debug-struct-loop', between(DZ, '        f.debug_struct("Z80")', '    }\n}\n\nimpl CpuDebug', '''        let words = [
            ("pc", self.pc), ("sp", self.sp), ("af", self.af),
            ("bc", self.regs.bc), ("de", self.regs.de), ("hl", self.regs.hl),
            ("af'", self.af_alt),
            ("bc'", self.regs_alt.bc), ("de'", self.regs_alt.de), ("hl'", self.regs_alt.hl),
            ("ix", self.index.ix), ("iy", self.index.iy), ("ir", self.ir),
        ];
        let mut out = f.debug_struct("Z80");
        for (name, pair) in words.iter() {
            out.field(name, &pair.get16());
        }
        out.field("r", &self.r.0).field("im", &self.im);
        for (name, on) in [("iff1", self.iff1), ("iff2", self.iff2), ("halt", self.halt), ("ei", self.last_ei)] {
            out.field(name, &on);
        }
        out.field("mp", &self.memptr.get16());
        out.field("prefix", &self.prefix);
        out.finish()
'''), (DZ, '''        code.extend(bytes.iter().copied());
        let pc = (pc - Wrapping(code.len() as u16)).0;''', '''        for byte in bytes {
            code.push(*byte);
        }
        let pc = pc.0.wrapping_sub(bytes.len() as u16).wrapping_sub(prefix.is_some() as u16);'''))

FV = 'src/z80/flavours.rs'
ref('flavour-shift', (FV, '''    #[inline(always)]
    fn memptr_mix(_msb: u8, lsb: u8) -> (u8, u8) {
        (0, lsb.wrapping_add(1))
    }''', '''    fn memptr_mix(_: u8, lsb: u8) -> (u8, u8) {
        let mixed = NMOS::memptr_mix(0, lsb);
        (mixed.0, mixed.1)
    }'''), (IN, '''        let iff2 = if self.iff2 {
            !(Q::ACCEPTING_INT_RESETS_IFF2_EARLY && self.iff1 && control.is_irq(tsc.as_timestamp()))
        }
        else {
            false
        };''', '''        let mut iff2 = self.iff2;
        if Q::ACCEPTING_INT_RESETS_IFF2_EARLY {
            let both = self.iff1 && self.iff2;
            iff2 &= !(both && control.is_irq(tsc.as_timestamp()));
        }'''), (IN, '''        let val = match arg {
            Ok(src) => {
                self.get_reg(src, None)
            }
            Err(_) => {
                Q::CONSTANT_OUT_DATA
            }
        };''', '''        let val = arg.map_or(Q::CONSTANT_OUT_DATA, |src| self.get_reg(src, None));'''),
 (IN, '''        self.memptr = Q::memptr_mix(a, rp16 as u8).into();
''', '''        let mixed = Q::memptr_mix(a, rp16.to_le_bytes()[0]);
        self.memptr.set(mixed.0, mixed.1);
'''))
# ---- second batch: helpers extracted, statements reordered, loops rewritten
MC = 'src/z80/macros.rs'; IN = 'src/z80/internal.rs'; IS = 'src/z80/instructions.rs'
ref('2-bus-helper', (IN, '''impl<Q: Flavour> Z80<Q> {
    /// Reads 1 byte''', '''/// Lets the clock know about the wait states a device asked for.
fn stall<T: Clock>(tsc: &mut T, bus: u16, wait_states: Option<core::num::NonZeroU16>) {
    match wait_states {
        None => {}
        Some(ws) => tsc.add_wait_states(bus, ws)
    }
}

/// Reads a byte from the port.
fn port_in<M, T>(control: &mut M, tsc: &mut T, port: u16) -> u8
where M: Io<Timestamp=T::Timestamp>, T: Clock
{
    let ts = tsc.add_io(port);
    let (byte, ws) = control.read_io(port, ts);
    stall(tsc, port, ws);
    byte
}

/// Writes a byte to the port.
fn port_out<M, T>(control: &mut M, tsc: &mut T, port: u16, byte: u8) -> Option<M::WrIoBreak>
where M: Io<Timestamp=T::Timestamp>, T: Clock
{
    let ts = tsc.add_io(port);
    let (cause, ws) = control.write_io(port, byte, ts);
    stall(tsc, port, ws);
    cause
}

impl<Q: Flavour> Z80<Q> {
    /// Reads 1 byte'''), (IN, '''        let (vector, wait_states) = control.irq_data(pc, bus_ts);
        if let Some(ws) = wait_states {
            tsc.add_wait_states(pc, ws);
        }
''', '''        let (vector, wait_states) = control.irq_data(pc, bus_ts);
        stall(tsc, pc, wait_states);
'''), (IN, '''        let (data, wait_states) = control.read_io(bc, tsc.add_io(bc));
        if let Some(ws) = wait_states {
            tsc.add_wait_states(bc, ws);
        }
        let hl = self.regs.hl.get16();
''', '''        let data = port_in(control, tsc, bc);
        let hl = self.regs.hl.get16();
'''), (IN, '''        let (data, wait_states) = control.read_io(bc, tsc.add_io(bc));
        if let Some(ws) = wait_states {
            tsc.add_wait_states(bc, ws);
        }
        ops::io(data, flags);
        self.flavour.flags_modified();
        // IN r,(C)     MEMPTR = BC + 1
        self.memptr.set16(bc.wrapping_add(1));
''', '''        // IN r,(C)     MEMPTR = BC + 1
        self.memptr.set16(bc);
        self.memptr.inc16();
        let data = port_in(control, tsc, bc);
        self.flavour.flags_modified();
        ops::io(data, flags);
'''), (IN, '''        let (should_break, wait_states) = control.write_io(bc, data, tsc.add_io(bc));
        if let Some(ws) = wait_states {
            tsc.add_wait_states(bc, ws);
        }
        self.regs.bc.set8hi(b);
        self.regs.hl.set16(hl1);
''', '''        self.regs.hl.set16(hl1);
        self.regs.bc.set8hi(b);
        let should_break = port_out(control, tsc, bc, data);
'''), (IN, '''        let (should_break, wait_states) = control.write_io(port, a, tsc.add_io(port));
        if let Some(ws) = wait_states {
            tsc.add_wait_states(port, ws);
        }
        should_break
''', '''        port_out(control, tsc, port, a)
'''))
ref('2-register-file', (IN, '''        match tgt {
            Reg8::B => self.regs.bc.ptr8hi(),
            Reg8::C => self.regs.bc.ptr8lo(),
            Reg8::D => self.regs.de.ptr8hi(),
            Reg8::E => self.regs.de.ptr8lo(),
            Reg8::H => match prefix {
                None => self.regs.hl.ptr8hi(),
                Some(Prefix::Xdd) => self.index.ix.ptr8hi(),
                Some(Prefix::Yfd) => self.index.iy.ptr8hi(),
            }
            Reg8::L => match prefix {
                None => self.regs.hl.ptr8lo(),
                Some(Prefix::Xdd) => self.index.ix.ptr8lo(),
                Some(Prefix::Yfd) => self.index.iy.ptr8lo(),
            }
            Reg8::A => self.af.ptr8hi()
        }
''', '''        let code = tgt.to_code();
        let pair = match code >> 1 {
            0 => &mut self.regs.bc,
            1 => &mut self.regs.de,
            2 => match prefix {
                None => &mut self.regs.hl,
                Some(which) => self.index16_mut(which)
            },
            _ => return self.af.ptr8hi()
        };
        if code & 1 == 0 { pair.ptr8hi() } else { pair.ptr8lo() }
'''), (IN, '''        unsafe {
            let ptr = self.reg8_ptr(tgt, prefix);
            *ptr = op(*ptr);
        }
''', '''        let val = op(self.get_reg(tgt, prefix));
        self.set_reg(tgt, prefix, val);
'''), (IN, '''        match src {
            Reg16::BC => self.regs.bc.get16(),
            Reg16::DE => self.regs.de.get16(),
            Reg16::HL => self.index16_ref(prefix).get16(),
            Reg16::SP => self.sp.get16()
        }        
''', '''        if let Reg16::HL = src {
            return self.index16_ref(prefix).get16()
        }
        self.reg16_ref(src).get16()
'''), (IN, '''        let a = self.af.get8hi();
        self.af = self.af_alt;
        self.af_alt.set(a, flags.bits());
        self.get_flags()
''', '''        self.set_flags(flags);
        swap(&mut self.af, &mut self.af_alt);
        self.get_flags()
'''), (IN, '''        swap(&mut self.regs.de, &mut self.regs.hl);
''', '''        let GeneralRegisters { de, hl, .. } = self.regs;
        self.regs.hl = de;
        self.regs.de = hl;
'''))
ref('2-reset-struct', (Z, '''        self.af.set16(u16::max_value());
        self.af_alt.set16(u16::max_value());
        self.regs.bc.set16(0);
        self.regs.de.set16(0);
        self.regs.hl.set16(0);
        self.regs_alt.bc.set16(0);
        self.regs_alt.de.set16(0);
        self.regs_alt.hl.set16(0);
        self.index.ix.set16(0);
        self.index.iy.set16(0);
        self.pc.set16(0);
        self.sp.set16(u16::max_value());
        self.memptr.set16(0);
        self.last_ei = false;
        self.ir.set16(0);
        self.im = InterruptMode::Mode0;
        self.iff1 = false;
        self.iff2 = false;
        self.halt = false;
        self.prefix = None;
        self.r = Wrapping(0);
        self.flavour.reset();
''', '''        let ones = RegisterPair::from(u16::MAX);
        self.flavour.reset();
        *self = Z80 {
            af: ones,
            af_alt: ones,
            sp: ones,
            regs: Default::default(),
            regs_alt: Default::default(),
            index: Default::default(),
            pc: Default::default(),
            memptr: Default::default(),
            ir: Default::default(),
            im: InterruptMode::Mode0,
            last_ei: false,
            iff1: false,
            iff2: false,
            halt: false,
            prefix: None,
            r: Wrapping(0),
            flavour: self.flavour
        };
'''), (Z, '''        Z80 {
            af: self.af,
            af_alt: self.af_alt,
            regs: self.regs,
            regs_alt: self.regs_alt,
            index: self.index,
            pc: self.pc,
            sp: self.sp,
            memptr: self.memptr,
            last_ei: self.last_ei,
            ir: self.ir,
            im: self.im,
            iff1: self.iff1,
            iff2: self.iff2,
            halt: self.halt,
            prefix: self.prefix,
            r: self.r,
            flavour: self.flavour.into()
        }
''', '''        let Z80 {
            af, af_alt, regs, regs_alt, index, pc, sp, memptr, last_ei, ir, im, iff1, iff2, halt, prefix, r, flavour
        } = self;
        let flavour = F::from(flavour);
        Z80 {
            af, af_alt, regs, regs_alt, index, pc, sp, memptr, last_ei, ir, im, iff1, iff2, halt, prefix, r, flavour
        }
'''), (Z, '''        let r = self.ir.get8lo();
        r & 0x80 | self.r.0 & 0x7F
''', '''        self.get_ir() as u8
'''), (Z, '''        let ir = self.ir.get16();
        ir & 0xFF80 | self.r.0 as u16 & 0x007F
''', '''        let (i, high_bit) = self.ir.get();
        let low = (high_bit & 0x80) + self.r.0 % 0x80;
        u16::from_be_bytes([i, low])
'''))
ref('2-next-split', (Z, '''        if self.is_irq_allowed() && control.is_irq(tsc.as_timestamp()) {
            return self.irq_no_check::<M,T,F>(control, tsc, debug);
        }
        if self.halt {
            tsc.add_m1(self.pc.get16());
            self.inc_r();
            Ok(())
        }
        else {
''', '''        let interrupted = match self.is_irq_allowed() {
            true => control.is_irq(tsc.as_timestamp()),
            false => false
        };
        if interrupted {
            self.irq_no_check::<M,T,F>(control, tsc, debug)
        }
        else if self.halt {
            self.idle(tsc);
            Ok(())
        }
        else {
'''), (Z, '''impl<Q: Flavour> Z80<Q> {
    #[inline(always)]
    fn execute_with_limit_loop''', '''impl<Q: Flavour> Z80<Q> {
    /// One refresh cycle of a halted processor.
    fn idle<T: Clock>(&mut self, tsc: &mut T) {
        self.inc_r();
        tsc.add_m1(self.pc.get16());
    }

    #[inline(always)]
    fn execute_with_limit_loop'''), (Z, '''            let pc = self.pc.get16();
            loop {
                if tsc.is_past_limit(vc_limit) {
                    return Ok(());
                }
                if self.is_irq_allowed() && control.is_irq(tsc.as_timestamp()) {
                    irq_requested = true;
                    break
                }
                tsc.add_m1(pc);
                self.inc_r();
            }
''', '''            while !irq_requested {
                if tsc.is_past_limit(vc_limit) {
                    return Ok(());
                }
                irq_requested = self.is_irq_allowed() && control.is_irq(tsc.as_timestamp());
                if !irq_requested {
                    self.idle(tsc);
                }
            }
'''), (Z, '''        if is_int_allowed(self.prefix, self.last_ei) {
            self.nmi_no_check::<M,T>(control, tsc);
            true
        }
        else {
            false
        }
''', '''        let allowed = self.is_nmi_allowed();
        if allowed {
            self.nmi_no_check(control, tsc);
        }
        allowed
'''), (Z, '''        if self.is_irq_allowed() {
            Some(self.irq_no_check::<M,T,F>(control, tsc, debug))
        }
        else {
            None
        }
''', '''        if !self.is_irq_allowed() {
            return None;
        }
        let outcome = self.irq_no_check(control, tsc, debug);
        Some(outcome)
'''), (Z, '''    prefix.is_none() && !last_ei
''', '''    !(last_ei || matches!(prefix, Some(_)))
'''))
ref('2-clock-advance', (HO, '''        let ts = (self.0 + Wrapping(INT_IORQ_LOW_TS.into())).0;
        self.0 += Wrapping(IRQ_ACK_CYCLE_TS.into());
        ts
''', '''        let start = *self;
        self.advance(IRQ_ACK_CYCLE_TS);
        start.later(INT_IORQ_LOW_TS)
'''), (HO, '''        let ts = (self.0 + Wrapping(IO_IORQ_LOW_TS.into())).0;
        self.0 += Wrapping(IO_CYCLE_TS.into());
        ts
''', '''        let start = *self;
        self.advance(IO_CYCLE_TS);
        start.later(IO_IORQ_LOW_TS)
'''), (HO, '''        self.0 += Wrapping(MEMRW_CYCLE_TS.into());
        (self.0).0
''', '''        self.advance(MEMRW_CYCLE_TS);
        self.as_timestamp()
'''), (HO, '''        self.0 += Wrapping(M1_CYCLE_TS.into());
        (self.0).0
''', '''        self.advance(M1_CYCLE_TS);
        self.as_timestamp()
'''), (HO, '''        self.0 += Wrapping(add_ts.get().into());
    }
''', '''        self.advance(add_ts.get())
    }
'''), (HO, '''impl<T> Clock for TsCounter<T>
''', '''impl<T> TsCounter<T>
where T: Copy + core::convert::From<u8>, Wrapping<T>: AddAssign + Add<Output=Wrapping<T>>
{
    fn later(self, count: u8) -> T {
        let Wrapping(ts) = self.0 + Wrapping(T::from(count));
        ts
    }
    fn advance(&mut self, count: u8) {
        self.0 = Wrapping(self.later(count));
    }
}

impl<T> Clock for TsCounter<T>
'''), (HO, '''        u16::from_le_bytes([self.read_debug(address), self.read_debug(address.wrapping_add(1))])
''', '''        let low = u16::from(self.read_debug(address));
        let high = u16::from(self.read_debug(address.wrapping_add(1)));
        high << 8 | low
'''), (HO, '''        Into::<&str>::into(self).fmt(f)
''', '''        let text: &str = self.into();
        f.pad(text)
'''))
ref('2-names', (PA, '''        match (self, prefix) {
            (Reg8::H, Some(Prefix::Xdd)) => f.write_str("IXH"),
            (Reg8::H, Some(Prefix::Yfd)) => f.write_str("IYH"),
            (Reg8::L, Some(Prefix::Xdd)) => f.write_str("IXL"),
            (Reg8::L, Some(Prefix::Yfd)) => f.write_str("IYL"),
            _ => fmt::Display::fmt(&self, f)
        }
''', '''        let half = match self {
            Reg8::H => "H",
            Reg8::L => "L",
            other => return write!(f, "{}", other)
        };
        if let Some(index) = prefix {
            fmt::Display::fmt(&index, f)?;
        }
        f.write_str(half)
'''), (PA, '''        match (self, prefix) {
            (Reg16::HL, Some(Prefix::Xdd)) => f.write_str("IX"),
            (Reg16::HL, Some(Prefix::Yfd)) => f.write_str("IY"),
            _ => fmt::Display::fmt(&self, f),
        }
''', '''        match prefix {
            Some(index) if self == Reg16::HL => fmt::Display::fmt(&index, f),
            _ => f.write_str(self.into())
        }
'''), (PA, '''        write!(f, "{}", match self {
            Prefix::Xdd  => "IX",
            Prefix::Yfd  => "IY",
        })
''', '''        f.write_str(if *self == Prefix::Xdd { "IX" } else { "IY" })
'''))
ref('2-disasm-step', (DI, '''    let mut cpu = C::default();
    let mut cursor: usize = 0;
    let mut dbg: Option<CpuDebug> = None;
    let mut tsc = TsClock::default();
    while cursor < memory.len() {
        let pc = pc.wrapping_add(cursor as u16);
        cpu.set_pc(pc);
        let _ = cpu.execute_next(&mut Mem(pc, &memory[cursor..]), &mut tsc,
            Some(|deb: CpuDebug| {
                cursor += deb.code.len();
                if deb.prefix.is_some() {
                    cursor -= 1;
                }
                dbg = Some(deb);
            })
        );
        if cursor > memory.len() {
            break;
        }
        else if let Some(deb) = dbg.take() {
            debug(deb)?;
        }
        else if cpu.is_after_prefix() {
            cursor += 1;
        }
        else { // reset after halt
            cpu.reset();
        }
    }
    Ok(())
}
''', '''    let mut cpu = C::default();
    let mut rest = memory;
    let mut addr = pc;
    loop {
        if rest.is_empty() {
            return Ok(());
        }
        let taken = match one(&mut cpu, addr, rest) {
            Some(deb) => {
                let len = deb.code.len() - usize::from(deb.prefix.is_some());
                if len > rest.len() {
                    return Ok(());
                }
                debug(deb)?;
                len
            }
            None if cpu.is_after_prefix() => 1,
            None => { // it was halted
                cpu.reset();
                0
            }
        };
        rest = &rest[taken..];
        addr = addr.wrapping_add(taken as u16);
    }
}

/// Runs a single instruction.
fn one<C: Cpu>(cpu: &mut C, pc: u16, bytes: &[u8]) -> Option<CpuDebug> {
    let mut seen = None;
    let mut clock = TsClock::default();
    cpu.set_pc(pc);
    let _ = cpu.execute_next(&mut Mem(pc, bytes), &mut clock, Some(|deb: CpuDebug| seen = Some(deb)));
    seen
}
'''), (DI, '''        *self.1.get(addr.wrapping_sub(self.0) as usize).unwrap_or(&0xff)
''', '''        let Mem(base, bytes) = self;
        let index = usize::from(addr.wrapping_sub(*base));
        if index < bytes.len() { bytes[index] } else { 0xff }
'''))
ref('2-visitor', (RG, '''        if value >= i64::from(i16::MIN) && value <= i64::from(i16::MAX) {
            Ok(RegisterPair::from(value as i16))
        } else {
            Err(E::custom(format_args!("RegisterPair out of range: {}", value)))
        }
''', '''        match i16::try_from(value) {
            Ok(int) => self.visit_i16(int),
            Err(_) => Err(E::custom(format_args!("RegisterPair out of range: {}", value)))
        }
'''), (RG, '''        if value <= u64::from(u16::MAX) {
            Ok(RegisterPair::from(value as u16))
        } else {
            Err(E::custom(format_args!("RegisterPair out of range: {}", value)))
        }
''', '''        u16::try_from(value)
            .map(RegisterPair::from)
            .map_err(|_| E::custom(format_args!("RegisterPair out of range: {}", value)))
'''), (RG, '''        let body = if let Some(rest) = s.strip_prefix('$') {
            rest
        }
        else if let Some(rest) = s.strip_prefix("0x") {
            rest
        }
        else {
            s
        };
''', '''        let body = s.strip_prefix('$').or_else(|| s.strip_prefix("0x")).unwrap_or(s);
'''), (RG, '''        if let Some(lo) = seq.next_element::<u8>()? {
            if let Some(hi) = seq.next_element::<u8>()? {
                if seq.next_element::<u8>()?.is_none() {
                    return Ok(RegisterPair::from([lo, hi]))
                }
            }
        }
        Err(''', '''        let lo: Option<u8> = seq.next_element()?;
        if lo.is_some() {
            let hi: Option<u8> = seq.next_element()?;
            if let (Some(lo), Some(hi)) = (lo, hi) {
                if let None = seq.next_element::<u8>()? {
                    return Ok(RegisterPair([lo, hi]))
                }
            }
        }
        Err('''))
ref('2-block-steps', (IN, '''        self.regs.hl.set16(hl.wrapping_add(delta as u16));
        self.regs.de.set16(de.wrapping_add(delta as u16));
        let is_over = self.regs.bc.dec16_is_zero();
        ops::ldx(''', '''        for pair in [&mut self.regs.hl, &mut self.regs.de] {
            pair.add16(delta as i8 as u16);
        }
        self.regs.bc.dec16();
        let is_over = self.regs.bc.get16() == 0;
        ops::ldx('''), (IN, '''        let is_over = ops::cpx( self.af.get8hi(),
                                val,
                                self.regs.bc.dec16_is_zero(),
                                flags);
        self.flavour.flags_modified();
        if let Some(pc) = pc {
            if !is_over {
                // tsc.add_no_mreq::<{NO_MREQ_X5.get()}>(hl);
                tsc.add_no_mreq(hl, NO_MREQ_X5);
                // MEMPTR = PC + 1
                self.memptr.set16((pc - Wrapping(1)).0);
                return Some(pc - Wrapping(2))
            }
        }
        // MEMPTR = MEMPTR +/- 1
        self.memptr.add16(delta as u16);
        None
''', '''        let last = self.regs.bc.dec16_is_zero();
        let is_over = ops::cpx(self.af.get8hi(), val, last, flags);
        self.flavour.flags_modified();
        match pc.filter(|_| !is_over) {
            Some(Wrapping(pc)) => {
                tsc.add_no_mreq(hl, NO_MREQ_X5);
                // MEMPTR = PC + 1
                let back = pc.wrapping_sub(2);
                self.memptr = RegisterPair::from(back.wrapping_add(1));
                Some(Wrapping(back))
            }
            None => {
                // MEMPTR = MEMPTR +/- 1
                match delta {
                    BlockDelta::Increase => self.memptr.inc16(),
                    BlockDelta::Decrease => self.memptr.dec16(),
                }
                None
            }
        }
'''), (IN, '''        let b = ((bc >> 8) as u8).wrapping_sub(1);
        ops::iox(''', '''        let b = bc.wrapping_sub(0x100).msb();
        ops::iox('''))
ref('2-stack', (IN, '''        let sp = self.sp.get16();
        let val = control.read_mem16(sp, tsc.add_mreq(sp));
        tsc.add_mreq(sp.wrapping_add(1));
        self.sp.set16(sp.wrapping_add(2));
        val
''', '''        let low = self.sp.get16();
        self.sp.inc16();
        let high = self.sp.get16();
        self.sp.inc16();
        let ts = tsc.add_mreq(low);
        let word = control.read_mem16(low, ts);
        let _ = tsc.add_mreq(high);
        word
'''), (IN, '''        let sp = self.sp.get16().wrapping_sub(1);
        control.write_mem(sp, vhi, tsc.add_mreq(sp));
        let sp = sp.wrapping_sub(1);
        control.write_mem(sp, vlo, tsc.add_mreq(sp));
        self.sp.set16(sp);
''', '''        for byte in [vhi, vlo] {
            self.sp.dec16();
            let sp = self.sp.get16();
            let ts = tsc.add_mreq(sp);
            control.write_mem(sp, byte, ts);
        }
'''), (IN, '''        self.last_ei = false;
        self.iff1 = false;
        self.inc_r();
        let mut pc = self.pc.get16();
        if self.halt {
            self.halt = false;
            pc = pc.wrapping_add(1);
        }
''', '''        self.flavour.begin_instruction();
        let pc = self.pc.get16().wrapping_add(u16::from(self.halt));
        self.inc_r();
        self.halt = false;
        self.iff1 = false;
        self.last_ei = false;
'''), (IN, '''        self.push16(pc, control, tsc); // sp-1:3, sp-2:3
        self.flavour.begin_instruction();
        self.pc.set16(NMI_RESTART);
''', '''        self.pc.set16(NMI_RESTART);
        let [low, high] = pc.to_le_bytes();
        self.push2(high, low, control, tsc); // sp-1:3, sp-2:3
'''))
ref('2-rmw', (IN, '''        let hl: u16 = self.regs.hl.get16();
        let val: u8 = op8(control.read_mem(hl, tsc.add_mreq(hl)));
        // tsc.add_no_mreq::<{NO_MREQ_X1.get()}>(hl, );
        tsc.add_no_mreq(hl, NO_MREQ_X1);
        control.write_mem(hl, val, tsc.add_mreq(hl));
''', '''        let hl: u16 = self.regs.hl.get16();
        modify(control, tsc, hl, op8);
'''), (IN, '''        let val: u8 = opfn(control.read_mem(ii_d, tsc.add_mreq(ii_d)), flags);
        self.flavour.flags_modified();
        // tsc.add_no_mreq::<{NO_MREQ_X1.get()}>(ii_d);
        tsc.add_no_mreq(ii_d, NO_MREQ_X1);
        // Any instruction with (INDEX+d): MEMPTR = INDEX+d
        self.memptr.set16(ii_d);
        control.write_mem(ii_d, val, tsc.add_mreq(ii_d));
''', '''        // Any instruction with (INDEX+d): MEMPTR = INDEX+d
        self.memptr.set16(ii_d);
        modify(control, tsc, ii_d, |val| opfn(val, flags));
        self.flavour.flags_modified();
'''), (IN, '''impl<Q: Flavour> Z80<Q> {
    /// Reads 1 byte''', '''/// Reads, changes and writes back a byte.
#[inline]
fn modify<M, T, F>(control: &mut M, tsc: &mut T, addr: u16, change: F)
where M: Memory<Timestamp=T::Timestamp>, T: Clock, F: FnOnce(u8) -> u8
{
    let old = control.read_mem(addr, tsc.add_mreq(addr));
    tsc.add_no_mreq(addr, NO_MREQ_X1);
    let new = change(old);
    let ts = tsc.add_mreq(addr);
    control.write_mem(addr, new, ts);
}

impl<Q: Flavour> Z80<Q> {
    /// Reads 1 byte'''), (IN, '''            BitOps::Rot(rot, arg) => {
                let rotres = rot.op(val, flags);
                self.flavour.flags_modified();
                (rotres, arg)
            }
            BitOps::Bit(b, _) => {
                ops::bit_mp(b, val, (ii_d >> 8) as u8, flags);
                self.flavour.flags_modified();
                return;
            }
            BitOps::Res(b, arg) => {
                (ops::res(b, val), arg)
            }
            BitOps::Set(b, arg) => {
                (ops::set(b, val), arg)
            }
''', '''            BitOps::Bit(b, _) => {
                self.flavour.flags_modified();
                return ops::bit_mp(b, val, self.memptr.get8hi(), flags);
            }
            BitOps::Res(b, arg) => (val & !(1u8 << b), arg),
            BitOps::Set(b, arg) => (val | 1u8 << b, arg),
            BitOps::Rot(rot, arg) => {
                self.flavour.flags_modified();
                (rot.op(val, flags), arg)
            }
'''))
ref('2-loads', (IS, '''                (Ok(dst), Ok(src)) => {
                    cpu_debug!([$code] LD r:dst, r:src);
                    $cpu.load_reg(dst, src, None);
                }
                (Ok(dst), Err(_)) => {
                    cpu_debug!([$code] LD r:dst, addr:HL);
                    // ss:3
                    let n: u8 = read_mem8_reg16!(<- [hl]);
                    $cpu.set_reg(dst, None, n);
                }
''', '''                (Ok(dst), src) => {
                    let n = match src {
                        Ok(src) => {
                            cpu_debug!([$code] LD r:dst, r:src);
                            $cpu.get_reg(src, None)
                        }
                        Err(()) => {
                            cpu_debug!([$code] LD r:dst, addr:HL);
                            // ss:3
                            read_mem8_reg16!(<- [hl])
                        }
                    };
                    $cpu.set_reg(dst, None, n);
                }
'''), (IS, '''            $tsc.add_no_mreq($cpu.get_ir(), NO_MREQ_X2);
            $cpu.sp.set16($cpu.regs.hl.get16());
''', '''            let hl = $cpu.regs.hl;
            $cpu.sp = hl;
            let ir = $cpu.get_ir();
            $tsc.add_no_mreq(ir, NO_MREQ_X2);
'''), (IS, '''            if let Some(pc) = $cpu.block_transfer::<M, T>($control, $tsc, &mut $flags,
                                                            BlockDelta::Increase, Some($pc)) {
                $pc = pc;
            }
''', '''            let after = $cpu.block_transfer::<M, T>($control, $tsc, &mut $flags, BlockDelta::Increase, Some($pc));
            $pc = after.unwrap_or($pc);
'''))
