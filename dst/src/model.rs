//! A small independent executable model of the LC-3 machine: the reference the
//! simulator under test is compared with. It shares no code with the
//! repository (own decoder, own condition codes, own exception entry).
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum IReg {
    Pc,
    Psr,
    Mcr,
    SavedSp,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Irq {
    pub vect: u8,
    pub prio: u8,
    pub external: bool,
}

/// Why an instruction could not complete.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Exc {
    Privilege,
    Illegal,
    Format,
    Access,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Stop {
    Ok,
    Halt,
    Err(Exc),
    External,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// An interrupt was taken (vector table entry, priority).
    Interrupt(u16, u8),
    Instr(u16),
    /// Nothing was executed (external interrupt, failed fetch, virtual error).
    None,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FKind {
    Sub,
    Trap,
    Int,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct MFrame {
    pub caller: u16,
    pub callee: u16,
    pub kind: FKind,
    /// An exception entered under real traps: the property does not name the
    /// frame's kind for it.
    pub exception: bool,
    pub args: Vec<u16>,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Sig {
    Cc(usize),
    Regs(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct StepLog {
    pub stop: Stop,
    pub kind: Kind,
    /// Address of the faulting instruction, for errors.
    pub fault_pc: u16,
    /// Exception vectored to the OS in this step.
    pub vectored: Option<Exc>,
    pub reads: Vec<u16>,
    pub writes: Vec<(u16, u16, u16)>,
    pub user_before: bool,
    /// The step touched something whose outcome the property does not fix.
    pub unjudged: Option<&'static str>,
}

pub trait Bus {
    /// A device read; `None` if the device does not answer.
    fn read(&mut self, port: u16) -> Option<u16>;
    /// A device write; whether it was accepted.
    fn write(&mut self, port: u16, data: u16) -> bool;
}

pub struct Model {
    pub r: [u16; 8],
    pub pc: u16,
    pub psr: u16,
    pub saved_sp: u16,
    pub mem: Vec<u16>,
    pub mcr: bool,
    pub count: u64,
    pub depth: u64,
    pub frames: Vec<MFrame>,
    pub track_frames: bool,
    pub sub_sigs: BTreeMap<u16, Sig>,
    pub real_traps: bool,
    pub ignore_priv: bool,
    pub ireg: BTreeMap<u16, IReg>,
}

pub fn sext(v: u16, bits: u32) -> u16 {
    let s = 16 - bits;
    (((v << s) as i16) >> s) as u16
}
pub const IO: u16 = 0xFE00;

impl Model {
    pub fn new() -> Self {
        Model {
            r: [0; 8],
            pc: 0x3000,
            psr: 0x8002,
            saved_sp: 0x3000,
            mem: vec![0; 65536],
            mcr: false,
            count: 0,
            depth: 0,
            frames: vec![],
            track_frames: false,
            sub_sigs: BTreeMap::new(),
            real_traps: false,
            ignore_priv: false,
            ireg: BTreeMap::from([(0xFFFC, IReg::Psr), (0xFFFE, IReg::Mcr)]),
        }
    }
    pub fn user(&self) -> bool {
        self.psr & 0x8000 != 0
    }
    pub fn prio(&self) -> u8 {
        ((self.psr >> 8) & 7) as u8
    }
    pub fn allowed(&self, a: u16) -> bool {
        !self.user() || self.ignore_priv || (0x3000..IO).contains(&a)
    }
    fn set_cc(&mut self, v: u16) {
        self.psr &= !7;
        self.psr |= if v == 0 {
            2
        } else if v & 0x8000 != 0 {
            4
        } else {
            1
        };
    }
    fn rd(&mut self, a: u16, bus: &mut dyn Bus, log: &mut StepLog) -> Result<u16, Exc> {
        if !self.allowed(a) {
            return Err(Exc::Access);
        }
        log.reads.push(a);
        if a >= IO {
            let v = match self.ireg.get(&a) {
                Some(IReg::Pc) => {
                    Some(self.pc)
                }
                Some(IReg::Psr) => Some(self.psr),
                Some(IReg::Mcr) => Some((self.mcr as u16) << 15),
                Some(IReg::SavedSp) => Some(self.saved_sp),
                None => bus.read(a),
            };
            if let Some(v) = v {
                self.mem[a as usize] = v;
            }
        }
        Ok(self.mem[a as usize])
    }
    fn wr(&mut self, a: u16, v: u16, bus: &mut dyn Bus, log: &mut StepLog) -> Result<(), Exc> {
        if !self.allowed(a) {
            return Err(Exc::Access);
        }
        if a >= IO {
            let ok = match self.ireg.get(&a) {
                Some(IReg::Pc) => {
                    self.pc = v;
                    true
                }
                Some(IReg::Psr) => {
                    self.set_psr(v);
                    true
                }
                Some(IReg::Mcr) => {
                    self.mcr = v & 0x8000 != 0;
                    true
                }
                Some(IReg::SavedSp) => {
                    self.saved_sp = v;
                    true
                }
                None => bus.write(a, v),
            };
            if !ok {
                return Ok(());
            }
        }
        log.writes.push((a, self.mem[a as usize], v));
        self.mem[a as usize] = v;
        Ok(())
    }
    pub fn set_psr(&mut self, v: u16) {
        self.psr = v & 0x8707;
        if (v & 7).count_ones() != 1 {
            self.psr = (self.psr & !7) | 2;
        }
    }
    fn push_frame(&mut self, caller: u16, callee: u16, kind: FKind, exception: bool) {
        self.depth += 1;
        if !self.track_frames {
            return;
        }
        let builtin = |v: u16| match v {
            0x21 | 0x22 | 0x24 => Some(Sig::Regs(vec![0])),
            _ => None,
        };
        let sig = match kind {
            FKind::Sub => self.sub_sigs.get(&callee).cloned(),
            FKind::Trap => builtin(callee),
            FKind::Int => self.sub_sigs.get(&callee).cloned(),
        };
        let args = match sig {
            None => vec![],
            Some(Sig::Regs(rs)) => rs.iter().map(|&r| self.r[r as usize]).collect(),
            // Arguments were pushed by the caller: the first is at the top of
            // the stack when the call is made.
            Some(Sig::Cc(n)) => (0..n).map(|i| self.mem[self.r[6].wrapping_add(i as u16) as usize]).collect(),
        };
        self.frames.push(MFrame { caller, callee, kind, exception, args });
    }
    fn pop_frame(&mut self) {
        self.depth = self.depth.saturating_sub(1);
        self.frames.pop();
    }
    /// Enters a trap, exception or interrupt handler.
    fn enter(&mut self, vect: u16, prio: Option<u8>, caller: u16, exception: bool, bus: &mut dyn Bus, log: &mut StepLog) {
        if self.user() {
            std::mem::swap(&mut self.saved_sp, &mut self.r[6]);
        }
        let (old_psr, old_pc) = (self.psr, self.pc);
        self.psr &= 0x7FFF;
        let sp = self.r[6];
        for a in [sp.wrapping_sub(1), sp.wrapping_sub(2)] {
            if self.ireg.contains_key(&a) {
                log.unjudged.get_or_insert("supervisor stack lies on an internal register");
            }
        }
        let _ = self.wr(sp.wrapping_sub(1), old_psr, bus, log);
        let _ = self.wr(sp.wrapping_sub(2), old_pc, bus, log);
        self.r[6] = sp.wrapping_sub(2);
        self.psr = (self.psr & !7) | 2;
        if let Some(p) = prio {
            self.psr = (self.psr & !0x0700) | ((p as u16 & 7) << 8);
        }
        let target = self.rd(vect, bus, log).unwrap_or(0);
        self.push_frame(caller, vect, if prio.is_some() { FKind::Int } else { FKind::Trap }, exception);
        self.pc = target;
    }

    /// One step. `pending` is what the devices request at this boundary;
    /// `prefer` picks among requests of equal priority.
    pub fn step(&mut self, pending: &[Irq], prefer: impl Fn(&Model, &Irq) -> bool, bus: &mut dyn Bus) -> StepLog {
        let mut log = StepLog {
            stop: Stop::Ok,
            kind: Kind::None,
            fault_pc: self.pc,
            vectored: None,
            reads: vec![],
            writes: vec![],
            user_before: self.user(),
            unjudged: None,
        };
        if pending.iter().any(|i| i.external) {
            log.stop = Stop::External;
            return log;
        }
        if let Some(max) = pending.iter().map(|i| i.prio.min(7)).max() {
            if max > self.prio() {
                let tied: Vec<&Irq> = pending.iter().filter(|i| i.prio.min(7) == max).collect();
                let c = **tied.iter().find(|c| prefer(self, c)).unwrap_or(&tied[0]);
                let sp = if self.user() { self.saved_sp } else { self.r[6] };
                let mut hits: Vec<u8> = tied.iter().filter(|c| prefer(self, c)).map(|c| c.vect).collect();
                hits.sort();
                hits.dedup();
                if hits.len() > 1 {
                    log.unjudged = Some("tied requests that share a handler");
                }
                if tied.len() > 1 && (0x101..=0x201).contains(&sp) {
                    log.unjudged = Some("tied requests while the entry overwrites the vector table");
                }
                let v = 0x100 + c.vect as u16;
                log.kind = Kind::Interrupt(v, max);
                let caller = self.pc;
                self.enter(v, Some(max), caller, false, bus, &mut log);
                return log;
            }
        }
        let start = self.pc;
        match self.exec(bus, &mut log) {
            Ok(true) => {
                self.count = self.count.wrapping_add(1);
            }
            Ok(false) => log.stop = Stop::Halt,
            Err(e) => {
                if self.real_traps {
                    log.vectored = Some(e);
                    let v = match e {
                        Exc::Privilege => 0x100,
                        Exc::Illegal | Exc::Format => 0x101,
                        Exc::Access => 0x102,
                    };
                    self.enter(v, None, start, true, bus, &mut log);
                } else {
                    log.stop = Stop::Err(e);
                }
            }
        }
        log
    }

    /// Fetches, decodes and executes. `Ok(false)` is a virtual HALT.
    fn exec(&mut self, bus: &mut dyn Bus, log: &mut StepLog) -> Result<bool, Exc> {
        let start = self.pc;
        let w = self.rd(start, bus, log)?;
        log.kind = Kind::Instr(w);
        let op = w >> 12;
        let dr = ((w >> 9) & 7) as usize;
        let sr1 = ((w >> 6) & 7) as usize;
        let sr2 = (w & 7) as usize;
        // Validate the encoding before the PC moves.
        match op {
            0xD => return Err(Exc::Illegal),
            0x1 | 0x5 if w & 0x20 == 0 && w & 0x18 != 0 => return Err(Exc::Format),
            0x4 if w & 0x800 == 0 && w & 0x0E3F != 0 => return Err(Exc::Format),
            0x9 if w & 0x3F != 0x3F => return Err(Exc::Format),
            0xC if w & 0x0E3F != 0 => return Err(Exc::Format),
            0x8 if w & 0x0FFF != 0 => return Err(Exc::Format),
            0xF if w & 0x0F00 != 0 => return Err(Exc::Format),
            _ => {}
        }
        let pc = start.wrapping_add(1);
        self.pc = pc;
        let off9 = pc.wrapping_add(sext(w, 9));
        let off6 = sext(w, 6);
        let op2 = |m: &Model| if w & 0x20 != 0 { sext(w, 5) } else { m.r[sr2] };
        match op {
            0x0 => {
                if (dr as u16) & self.psr & 7 != 0 {
                    self.pc = off9;
                }
            }
            0x1 => {
                let v = self.r[sr1].wrapping_add(op2(self));
                self.r[dr] = v;
                self.set_cc(v);
            }
            0x5 => {
                let v = self.r[sr1] & op2(self);
                self.r[dr] = v;
                self.set_cc(v);
            }
            0x9 => {
                let v = !self.r[sr1];
                self.r[dr] = v;
                self.set_cc(v);
            }
            0x2 => {
                let v = self.rd(off9, bus, log)?;
                self.r[dr] = v;
                self.set_cc(v);
            }
            0x3 => self.wr(off9, self.r[dr], bus, log)?,
            0x6 => {
                let v = self.rd(self.r[sr1].wrapping_add(off6), bus, log)?;
                self.r[dr] = v;
                self.set_cc(v);
            }
            0x7 => self.wr(self.r[sr1].wrapping_add(off6), self.r[dr], bus, log)?,
            0xA => {
                let p = self.rd(off9, bus, log)?;
                let v = self.rd(p, bus, log)?;
                self.r[dr] = v;
                self.set_cc(v);
            }
            0xB => {
                let p = self.rd(off9, bus, log)?;
                self.wr(p, self.r[dr], bus, log)?;
            }
            0xE => self.r[dr] = off9,
            0x4 => {
                let t = if w & 0x800 != 0 { pc.wrapping_add(sext(w, 11)) } else { self.r[sr1] };
                self.r[7] = pc;
                self.push_frame(start, t, FKind::Sub, false);
                self.pc = t;
            }
            0xC => {
                self.pc = self.r[sr1];
                if sr1 == 7 {
                    self.pop_frame();
                }
            }
            0x8 => {
                if self.user() && !self.ignore_priv {
                    return Err(Exc::Privilege);
                }
                let sp = self.r[6];
                let npc = self.rd(sp, bus, log)?;
                let npsr = self.rd(sp.wrapping_add(1), bus, log)?;
                self.r[6] = sp.wrapping_add(2);
                self.pc = npc;
                self.psr = npsr;
                if self.user() {
                    std::mem::swap(&mut self.saved_sp, &mut self.r[6]);
                }
                self.pop_frame();
            }
            0xF => {
                let v = w & 0xFF;
                if v == 0x25 && !self.real_traps {
                    self.pc = start;
                    return Ok(false);
                }
                self.enter(v, None, start, false, bus, log);
            }
            _ => unreachable!(),
        }
        Ok(true)
    }
}

pub fn disasm(w: u16) -> String {
    let n = ["BR", "ADD", "LD", "ST", "JSR", "AND", "LDR", "STR", "RTI", "NOT", "LDI", "STI", "JMP", "???", "LEA", "TRAP"];
    format!("{}({w:04x})", n[(w >> 12) as usize])
}
