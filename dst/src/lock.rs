//! Lockstep: the real simulator and the reference model driven through the
//! same schedule of host pokes, device events and interrupt requests.
use crate::ctx::*;
use crate::devs::*;
use crate::model::*;
use lc3_ensemble::ast::Reg;
use lc3_ensemble::sim::device::{BufferedDisplay, BufferedKeyboard};
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::{InternalRegister, MemAccessCtx, SimErr, SimFlags, Simulator};
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::AtomicBool;
use std::sync::{Arc, Mutex, RwLock};

pub const REGS: [Reg; 8] = [Reg::R0, Reg::R1, Reg::R2, Reg::R3, Reg::R4, Reg::R5, Reg::R6, Reg::R7];
pub const SSP_PORT: u16 = 0xFFF0;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Owner {
    Kb,
    Ds,
    Custom(u32),
}
pub struct PortInfo {
    pub ports: Vec<u16>,
    pub script: Arc<Mutex<VecDeque<Option<u16>>>>,
    pub reject: Arc<AtomicBool>,
}
#[derive(Default)]
pub struct Twin {
    pub kb_on: bool,
    pub kb: VecDeque<u8>,
    pub ie: bool,
    pub ds_on: bool,
    pub ds: Vec<u8>,
    pub owner: BTreeMap<u16, Owner>,
    /// Custom-device accesses of this step not yet explained by the model.
    pub evs: Vec<IoEv>,
    pub missing: Option<String>,
    pub kbdr_empty: bool,
}
impl Bus for Twin {
    fn read(&mut self, port: u16) -> Option<u16> {
        match self.owner.get(&port)? {
            Owner::Kb if !self.kb_on => None,
            Owner::Ds if !self.ds_on => None,
            Owner::Kb if port == 0xFE00 => Some((!self.kb.is_empty() as u16) << 15 | (self.ie as u16) << 14),
            Owner::Kb if port == 0xFE02 => {
                let v = self.kb.pop_front();
                if v.is_none() {
                    self.kbdr_empty = true;
                }
                v.map(u16::from)
            }
            Owner::Ds if port == 0xFE04 => Some(0x8000),
            Owner::Custom(d) => {
                let d = *d;
                let i = self.evs.iter().position(
                    |e| matches!(e, IoEv::Read { dev, port: p, effectful: true, .. } if *dev == d && *p == port),
                );
                match i {
                    Some(i) => match self.evs.remove(i) {
                        IoEv::Read { val, .. } => val,
                        _ => None,
                    },
                    None => {
                        self.missing.get_or_insert(format!("read of port x{port:04X} never reached device {d}"));
                        None
                    }
                }
            }
            _ => None,
        }
    }
    fn write(&mut self, port: u16, data: u16) -> bool {
        match self.owner.get(&port) {
            Some(Owner::Kb) if self.kb_on && port == 0xFE00 => {
                self.ie = data & 0x4000 != 0;
                true
            }
            Some(Owner::Ds) if self.ds_on && port == 0xFE06 => {
                self.ds.push(data as u8);
                true
            }
            Some(Owner::Custom(d)) => {
                let d = *d;
                let i = self.evs.iter().position(
                    |e| matches!(e, IoEv::Write { dev, port: p, data: v, .. } if *dev == d && *p == port && *v == data),
                );
                match i {
                    Some(i) => matches!(self.evs.remove(i), IoEv::Write { ok: true, .. }),
                    None => {
                        self.missing.get_or_insert(format!("write of x{data:04X} to port x{port:04X} never reached device {d}"));
                        false
                    }
                }
            }
            _ => false,
        }
    }
}

pub struct Lock {
    pub sim: Simulator,
    pub m: Model,
    pub tw: Twin,
    pub kbuf: Arc<RwLock<VecDeque<u8>>>,
    pub dbuf: Arc<RwLock<Vec<u8>>>,
    pub log: Log,
    pub ports: Vec<PortInfo>,
    pub lines: Vec<Line>,
    pub steps: u64,
    /// Number of effectful device accesses in the last step.
    pub last_io: usize,
    pub last_events: Vec<IoEv>,
    pub mirror: Option<Mirror>,
}

/// A second real machine that receives everything the host does to the first.
pub struct Mirror {
    pub sim: Simulator,
    pub kbuf: Arc<RwLock<VecDeque<u8>>>,
    pub dbuf: Arc<RwLock<Vec<u8>>>,
    pub log: Log,
}

pub struct Report {
    pub log: StepLog,
    pub result: Result<(), SimErr>,
    pub pc_before: u16,
    /// First disagreement between the simulator and the model in this step.
    pub mismatch: Option<(&'static str, String)>,
}

pub fn err_name(r: &Result<(), SimErr>) -> &'static str {
    match r {
        Ok(()) => "Ok",
        Err(SimErr::IllegalOpcode) => "IllegalOpcode",
        Err(SimErr::InvalidInstrFormat) => "InvalidInstrFormat",
        Err(SimErr::PrivilegeViolation) => "PrivilegeViolation",
        Err(SimErr::AccessViolation) => "AccessViolation",
        Err(SimErr::UnresolvedExternal(_)) => "UnresolvedExternal",
        Err(SimErr::Interrupt(_)) => "Interrupt",
        Err(SimErr::StrictRegSetUninit) => "StrictRegSetUninit",
        Err(SimErr::StrictMemSetUninit) => "StrictMemSetUninit",
        Err(SimErr::StrictIOSetUninit) => "StrictIOSetUninit",
        Err(SimErr::StrictJmpAddrUninit) => "StrictJmpAddrUninit",
        Err(SimErr::StrictSRAddrUninit) => "StrictSRAddrUninit",
        Err(SimErr::StrictMemAddrUninit) => "StrictMemAddrUninit",
        Err(SimErr::StrictPCCurrUninit) => "StrictPCCurrUninit",
        Err(SimErr::StrictPCNextUninit) => "StrictPCNextUninit",
        Err(SimErr::StrictPSRSetUninit) => "StrictPSRSetUninit",
    }
}
pub fn stop_name(s: Stop) -> &'static str {
    match s {
        Stop::Ok | Stop::Halt => "Ok",
        Stop::External => "Interrupt",
        Stop::Err(Exc::Privilege) => "PrivilegeViolation",
        Stop::Err(Exc::Illegal) => "IllegalOpcode",
        Stop::Err(Exc::Format) => "InvalidInstrFormat",
        Stop::Err(Exc::Access) => "AccessViolation",
    }
}

pub fn omni() -> MemAccessCtx {
    MemAccessCtx::omnipotent()
}

impl Lock {
    pub fn new(flags: SimFlags) -> Self {
        let sim = Simulator::new(flags);
        let mut l = Lock {
            sim,
            m: Model::new(),
            tw: Twin::default(),
            kbuf: Arc::default(),
            dbuf: Arc::default(),
            log: Arc::default(),
            ports: vec![],
            lines: vec![],
            steps: 0,
            last_io: 0,
            last_events: vec![],
            mirror: None,
        };
        l.m.real_traps = flags.use_real_traps;
        l.m.ignore_priv = flags.ignore_privilege;
        l.m.track_frames = true;
        for (p, o) in [(0xFE00, Owner::Kb), (0xFE02, Owner::Kb), (0xFE04, Owner::Ds), (0xFE06, Owner::Ds)] {
            l.tw.owner.insert(p, o);
        }
        l.map_ireg(SSP_PORT, IReg::SavedSp);
        l.resync();
        l
    }
    pub fn map_ireg(&mut self, port: u16, r: IReg) -> bool {
        let ok = self
            .sim
            .mmap_internal(
                port,
                match r {
                    IReg::Pc => InternalRegister::PC,
                    IReg::Psr => InternalRegister::PSR,
                    IReg::Mcr => InternalRegister::MCR,
                    IReg::SavedSp => InternalRegister::SavedSP,
                },
            )
            .is_ok();
        if ok {
            self.m.ireg.insert(port, r);
        }
        ok
    }
    pub fn attach_kb(&mut self) {
        self.sim.device_handler.set_keyboard(BufferedKeyboard::new(self.kbuf.clone()));
        self.tw.kb_on = true;
    }
    pub fn attach_ds(&mut self) {
        self.sim.device_handler.set_display(BufferedDisplay::new(self.dbuf.clone()));
        self.tw.ds_on = true;
    }
    pub fn add_port_dev(&mut self, ports: &[u16]) -> Option<usize> {
        let id = self.ports.len() as u32;
        let script: Arc<Mutex<VecDeque<Option<u16>>>> = Arc::default();
        let reject: Arc<AtomicBool> = Arc::default();
        let d = PortDev { id, log: self.log.clone(), script: script.clone(), reject_writes: reject.clone() };
        self.sim.device_handler.add_device(d, ports).ok()?;
        for &p in ports {
            self.tw.owner.insert(p, Owner::Custom(id));
        }
        self.ports.push(PortInfo { ports: ports.to_vec(), script, reject });
        Some(id as usize)
    }
    pub fn add_line(&mut self) -> Option<usize> {
        let line = Line::default();
        let d = IrqDev { line: line.clone(), polls: Arc::default() };
        self.sim.device_handler.add_device(d, &[]).ok()?;
        self.lines.push(line);
        Some(self.lines.len() - 1)
    }
    pub fn saved_sp(&mut self) -> u16 {
        self.sim.read_mem(SSP_PORT, omni()).map(|w| w.get()).unwrap_or(0)
    }
    /// Copies the simulator's whole state into the model.
    pub fn resync(&mut self) {
        use lc3_ensemble::sim::device::ExternalDevice;
        if self.tw.kb_on {
            self.tw.ie = self.sim.device_handler.io_read(0xFE00, false).is_some_and(|v| v & 0x4000 != 0);
        }
        for i in 0..8 {
            self.m.r[i] = self.sim.reg_file[REGS[i]].get();
        }
        self.m.pc = self.sim.pc;
        self.m.psr = self.sim.psr().get();
        self.m.saved_sp = self.saved_sp();
        self.m.mcr = self.sim.mcr().load(std::sync::atomic::Ordering::Relaxed);
        for a in 0..=0xFFFFu16 {
            self.m.mem[a as usize] = self.sim.mem[a].get();
        }
        self.tw.kb = self.kbuf.read().unwrap_or_else(|e| e.into_inner()).clone();
        self.tw.ds = self.dbuf.read().unwrap_or_else(|e| e.into_inner()).clone();
        self.m.count = self.sim.instructions_run;
    }
    pub fn poke(&mut self, a: u16, v: u16) {
        self.sim.mem[a].set(v);
        self.m.mem[a as usize] = v;
        if let Some(x) = &mut self.mirror {
            x.sim.mem[a].set(v);
        }
    }
    /// Makes a word uninitialised without changing its value.
    pub fn uninit(&mut self, a: u16) {
        self.sim.mem[a].clear_init();
        if let Some(x) = &mut self.mirror {
            x.sim.mem[a].clear_init();
        }
    }
    pub fn uninit_reg(&mut self, r: usize) {
        self.sim.reg_file[REGS[r]].clear_init();
        if let Some(x) = &mut self.mirror {
            x.sim.reg_file[REGS[r]].clear_init();
        }
    }
    pub fn set_reg(&mut self, r: usize, v: u16) {
        self.sim.reg_file[REGS[r]].set(v);
        self.m.r[r] = v;
        if let Some(x) = &mut self.mirror {
            x.sim.reg_file[REGS[r]].set(v);
        }
    }
    pub fn set_pc(&mut self, pc: u16) {
        self.sim.pc = pc;
        self.m.pc = pc;
        if let Some(x) = &mut self.mirror {
            x.sim.pc = pc;
        }
    }
    pub fn set_psr(&mut self, v: u16) {
        let _ = self.sim.write_mem(0xFFFC, Word::new_init(v), omni());
        self.m.set_psr(v);
        self.m.mem[0xFFFC] = v;
        if let Some(x) = &mut self.mirror {
            let _ = x.sim.write_mem(0xFFFC, Word::new_init(v), omni());
        }
    }
    pub fn set_saved_sp(&mut self, v: u16) {
        let _ = self.sim.write_mem(SSP_PORT, Word::new_init(v), omni());
        self.m.saved_sp = v;
        self.m.mem[SSP_PORT as usize] = v;
        if let Some(x) = &mut self.mirror {
            let _ = x.sim.write_mem(SSP_PORT, Word::new_init(v), omni());
        }
    }
    pub fn type_key(&mut self, b: u8) {
        self.kbuf.write().unwrap().push_back(b);
        self.tw.kb.push_back(b);
        if let Some(x) = &self.mirror {
            x.kbuf.write().unwrap().push_back(b);
        }
    }
    /// Builds a second machine with the same devices, lines and mappings.
    pub fn make_mirror(&mut self, flags: SimFlags) {
        let mut sim = Simulator::new(flags);
        let (kbuf, dbuf, log): (Arc<RwLock<VecDeque<u8>>>, Arc<RwLock<Vec<u8>>>, Log) = Default::default();
        if self.tw.kb_on {
            sim.device_handler.set_keyboard(BufferedKeyboard::new(kbuf.clone()));
        }
        if self.tw.ds_on {
            sim.device_handler.set_display(BufferedDisplay::new(dbuf.clone()));
        }
        for (i, p) in self.ports.iter().enumerate() {
            let d = PortDev { id: i as u32, log: log.clone(), script: p.script.clone(), reject_writes: p.reject.clone() };
            let _ = sim.device_handler.add_device(d, &p.ports);
        }
        for l in &self.lines {
            let _ = sim.device_handler.add_device(IrqDev { line: l.clone(), polls: Arc::default() }, &[]);
        }
        for (&a, &r) in &self.m.ireg {
            let r = match r {
                IReg::Pc => InternalRegister::PC,
                IReg::Psr => InternalRegister::PSR,
                IReg::Mcr => InternalRegister::MCR,
                IReg::SavedSp => InternalRegister::SavedSP,
            };
            let _ = sim.mmap_internal(a, r);
        }
        self.mirror = Some(Mirror { sim, kbuf, dbuf, log });
        self.copy_to_mirror();
    }
    /// Makes the mirror's state equal to this machine's.
    pub fn copy_to_mirror(&mut self) {
        use lc3_ensemble::sim::device::ExternalDevice;
        let psr = self.sim.psr().get();
        // The PSR can only be installed through its port, which normalises it.
        self.set_psr(psr);
        let (psr, ssp) = (self.sim.psr().get(), self.saved_sp());
        let ie = self.sim.device_handler.io_read(0xFE00, false);
        let Some(x) = &mut self.mirror else { return };
        for a in 0..=0xFFFFu16 {
            x.sim.mem[a] = self.sim.mem[a];
        }
        for r in REGS {
            x.sim.reg_file[r] = self.sim.reg_file[r];
        }
        let _ = x.sim.write_mem(0xFFFC, Word::new_init(psr), omni());
        let _ = x.sim.write_mem(SSP_PORT, Word::new_init(ssp), omni());
        x.sim.mem[0xFFFC] = self.sim.mem[0xFFFC];
        x.sim.mem[SSP_PORT] = self.sim.mem[SSP_PORT];
        x.sim.pc = self.sim.pc;
        x.sim.instructions_run = self.sim.instructions_run;
        if self.tw.kb_on {
            x.sim.device_handler.io_write(0xFE00, ie.unwrap_or(0) & 0x4000);
        }
        *x.kbuf.write().unwrap() = self.kbuf.read().unwrap().clone();
        *x.dbuf.write().unwrap() = self.dbuf.read().unwrap().clone();
    }

    /// The interrupt requests asserted at this boundary.
    pub fn pending(&self) -> Vec<Irq> {
        let mut p: Vec<Irq> = self.lines.iter().filter_map(|l| l.get()).collect();
        if self.tw.kb_on && self.tw.ie && !self.tw.kb.is_empty() {
            p.push(Irq { vect: 0x80, prio: 4, external: false });
        }
        p
    }

    pub fn step(&mut self) -> Report {
        let pending = self.pending();
        self.log.lock().unwrap().clear();
        let pc_before = self.sim.pc;
        self.m.mcr = true; // the machine runs while it is stepped
        trace(|| {
            format!(
                "step {:4} pc={:04x} {:12} psr={:04x} r={:04x?} ssp={:04x}{}",
                self.steps,
                pc_before,
                disasm(self.m.mem[pc_before as usize]),
                self.m.psr,
                self.m.r,
                self.m.saved_sp,
                if pending.is_empty() { String::new() } else { format!(" pending={pending:02x?}") }
            )
        });
        let result = self.sim.step_in();
        self.steps += 1;
        tick(1);
        self.tw.evs = std::mem::take(&mut *self.log.lock().unwrap());
        self.last_io = self.tw.evs.len();
        if self.mirror.is_some() {
            self.last_events = self.tw.evs.clone();
        }
        self.tw.missing = None;
        self.tw.kbdr_empty = false;
        let real_pc = self.sim.pc;
        let mut log = {
            let Lock { m, tw, .. } = self;
            m.step(&pending, |m, i| m.mem[0x100 + i.vect as usize] == real_pc, tw)
        };
        if self.tw.kbdr_empty {
            log.unjudged.get_or_insert("reads KBDR while it is not ready");
        }
        let mismatch = self.compare(&log, &result);
        mix(self.sim.pc as u64 ^ (self.sim.psr().get() as u64) << 16);
        mix((0..8).fold(0u64, |a, i| a.rotate_left(9) ^ self.sim.reg_file[REGS[i]].get() as u64));
        if let Some(u) = log.unjudged {
            probe("steps not judged (outcome not fixed by the property)");
            trace(|| format!("     not judged: {u}"));
            self.resync();
            Report { log, result, pc_before, mismatch: None }
        } else {
            Report { log, result, pc_before, mismatch }
        }
    }

    /// Runs up to `k` steps through `run_while` and the model through as many
    /// single steps. Returns the model's step logs, and whether both agree.
    pub fn run_segment(&mut self, k: u64) -> (Vec<StepLog>, bool) {
        self.log.lock().unwrap().clear();
        let mut left = k;
        trace(|| format!("run {k} steps from x{:04X}", self.sim.pc));
        let result = self.sim.run_while(|_| {
            let go = left > 0;
            left = left.saturating_sub(1);
            go
        });
        self.tw.evs = std::mem::take(&mut *self.log.lock().unwrap());
        self.tw.missing = None;
        self.tw.kbdr_empty = false;
        let mut logs: Vec<StepLog> = vec![];
        let mut judged = true;
        let real_pc = self.sim.pc;
        self.m.mcr = true;
        for i in 0..k {
            let pending = self.pending();
            let ties = pending.iter().filter(|a| pending.iter().any(|b| a.prio == b.prio && a.vect != b.vect)).count();
            let Lock { m, tw, .. } = self;
            let log = m.step(&pending, |m, x| i + 1 == k && m.mem[0x100 + x.vect as usize] == real_pc, tw);
            judged &= log.unjudged.is_none() && !(ties > 0 && matches!(log.kind, Kind::Interrupt(..)));
            let stop = log.stop;
            logs.push(log);
            tick(1);
            if stop != Stop::Ok || !self.m.mcr {
                break;
            }
        }
        judged &= !self.tw.kbdr_empty;
        self.steps += logs.len() as u64;
        let cleared = !self.m.mcr;
        let last = logs.last().cloned();
        let mismatch = match last {
            Some(l) => self.compare(&l, &result).or_else(|| self.compare_memory()),
            None => None,
        };
        mix(self.sim.pc as u64);
        if !judged || mismatch.is_some() {
            self.resync();
        }
        self.m.mcr = !cleared;
        (logs, judged && mismatch.is_none())
    }

    fn compare(&mut self, log: &StepLog, result: &Result<(), SimErr>) -> Option<(&'static str, String)> {
        if let Some(m) = self.tw.missing.take() {
            return Some(("io", m));
        }
        if let Some(e) = self.tw.evs.first() {
            return Some(("io", format!("unexpected device access {e:04x?}")));
        }
        let (want, got) = (stop_name(log.stop), err_name(result));
        if want != got {
            return Some(("result", format!("step returned {got}, the ISA prescribes {want}")));
        }
        if let Stop::Err(_) = log.stop {
            if self.sim.prefetch_pc() != log.fault_pc {
                return Some((
                    "fault-address",
                    format!("error reported at x{:04X}, the faulting instruction is at x{:04X}", self.sim.prefetch_pc(), log.fault_pc),
                ));
            }
            self.m.pc = self.sim.pc;
        }
        if self.m.pc != self.sim.pc {
            return Some(("pc", format!("PC is x{:04X}, expected x{:04X}", self.sim.pc, self.m.pc)));
        }
        for i in 0..8 {
            let g = self.sim.reg_file[REGS[i]].get();
            if g != self.m.r[i] {
                return Some(("reg", format!("R{i} is x{g:04X}, expected x{:04X}", self.m.r[i])));
            }
        }
        let psr = self.sim.psr().get();
        if (psr ^ self.m.psr) & 0x8707 != 0 {
            return Some(("psr", format!("PSR is x{psr:04X}, expected x{:04X}", self.m.psr)));
        }
        self.m.psr = psr;
        let ssp = self.saved_sp();
        if ssp != self.m.saved_sp {
            return Some(("saved-sp", format!("saved SP is x{ssp:04X}, expected x{:04X}", self.m.saved_sp)));
        }
        self.m.mem[SSP_PORT as usize] = ssp;
        for &a in log.writes.iter().map(|(a, ..)| a).chain(&log.reads) {
            if self.sim.mem[a].get() != self.m.mem[a as usize] {
                return Some((
                    "mem",
                    format!("mem[x{a:04X}] is x{:04X}, expected x{:04X}", self.sim.mem[a].get(), self.m.mem[a as usize]),
                ));
            }
        }
        if self.tw.kb_on {
            let b = self.kbuf.read().unwrap();
            if *b != self.tw.kb {
                return Some(("keyboard", format!("keyboard queue is {:02x?}, expected {:02x?}", *b, self.tw.kb)));
            }
        }
        if self.tw.ds_on {
            let b = self.dbuf.read().unwrap();
            if *b != self.tw.ds {
                return Some(("display", format!("display holds {:02x?}, expected {:02x?}", *b, self.tw.ds)));
            }
        }
        if self.steps % 32 == 0 {
            return self.compare_memory();
        }
        None
    }
    pub fn compare_memory(&mut self) -> Option<(&'static str, String)> {
        for a in 0..=0xFFFFu16 {
            if self.sim.mem[a].get() != self.m.mem[a as usize] {
                return Some((
                    "mem",
                    format!(
                        "mem[x{a:04X}] is x{:04X}, expected x{:04X} (changed without a prescribed write)",
                        self.sim.mem[a].get(),
                        self.m.mem[a as usize]
                    ),
                ));
            }
        }
        None
    }
}

pub fn known(v: u16) -> MachineInitStrategy {
    MachineInitStrategy::Known { value: v }
}
