//! Helpers for scenarios that drive real machines only.
use crate::ctx::*;
use crate::devs::*;
use crate::lock::{err_name, omni, REGS, SSP_PORT};
use lc3_ensemble::sim::device::{BufferedDisplay, BufferedKeyboard};
use lc3_ensemble::sim::mem::Word;
use lc3_ensemble::sim::{InternalRegister, SimErr, SimFlags, Simulator};
use std::collections::VecDeque;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, RwLock};

pub type KBuf = Arc<RwLock<VecDeque<u8>>>;
pub type DBuf = Arc<RwLock<Vec<u8>>>;

pub struct Rig {
    pub sim: Simulator,
    pub kbuf: KBuf,
    pub dbuf: DBuf,
    pub kill: Kill,
}
#[derive(Clone, PartialEq, Eq)]
pub struct Snap {
    pub r: [u16; 8],
    pub pc: u16,
    pub psr: u16,
    pub ssp: u16,
    pub mem: Vec<u16>,
    pub out: Vec<u8>,
    pub left: Vec<u8>,
    pub count: u64,
    pub depth: u64,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ending {
    Halted,
    Error(&'static str, u16),
    /// The step budget ran out.
    Stuck,
}

impl Rig {
    pub fn new(flags: SimFlags) -> Rig {
        let mut sim = Simulator::new(flags);
        sim.mmap_internal(SSP_PORT, InternalRegister::SavedSP).expect("free port");
        let (kbuf, dbuf): (KBuf, DBuf) = Default::default();
        sim.device_handler.set_keyboard(BufferedKeyboard::new(kbuf.clone()));
        sim.device_handler.set_display(BufferedDisplay::new(dbuf.clone()));
        let kill = Kill::new(u64::MAX);
        let _ = sim.device_handler.add_device(kill.clone(), &[]);
        Rig { sim, kbuf, dbuf, kill }
    }
    pub fn poke(&mut self, a: u16, v: u16) {
        self.sim.mem[a].set(v);
    }
    pub fn poke_all(&mut self, base: u16, ws: &[u16]) {
        for (i, &w) in ws.iter().enumerate() {
            self.poke(base.wrapping_add(i as u16), w);
        }
    }
    pub fn set_psr(&mut self, v: u16) {
        let _ = self.sim.write_mem(0xFFFC, Word::new_init(v), omni());
    }
    pub fn set_ssp(&mut self, v: u16) {
        let _ = self.sim.write_mem(SSP_PORT, Word::new_init(v), omni());
    }
    pub fn ssp(&mut self) -> u16 {
        self.sim.read_mem(SSP_PORT, omni()).map(|w| w.get()).unwrap_or(0)
    }
    pub fn set_reg(&mut self, r: usize, v: u16) {
        self.sim.reg_file[REGS[r]].set(v);
    }
    pub fn reg(&self, r: usize) -> u16 {
        self.sim.reg_file[REGS[r]].get()
    }
    pub fn psr(&self) -> u16 {
        self.sim.psr().get() & 0x8707
    }
    pub fn out(&self) -> Vec<u8> {
        self.dbuf.read().unwrap_or_else(|e| e.into_inner()).clone()
    }
    pub fn left(&self) -> Vec<u8> {
        self.kbuf.read().unwrap_or_else(|e| e.into_inner()).iter().copied().collect()
    }
    pub fn type_keys(&self, bs: &[u8]) {
        self.kbuf.write().unwrap_or_else(|e| e.into_inner()).extend(bs);
    }
    pub fn snap(&mut self) -> Snap {
        let ssp = self.ssp();
        Snap {
            r: std::array::from_fn(|i| self.reg(i)),
            pc: self.sim.pc,
            psr: self.psr(),
            ssp,
            mem: (0..=0xFFFFu16).map(|a| self.sim.mem[a].get()).collect(),
            out: self.out(),
            left: self.left(),
            count: self.sim.instructions_run,
            depth: self.sim.frame_stack.len(),
        }
    }
    pub fn judge(&self, r: Result<(), SimErr>) -> Option<Ending> {
        match r {
            Err(SimErr::Interrupt(_)) if self.kill.fired() => Some(Ending::Stuck),
            Err(e) => Some(Ending::Error(err_name(&Err(e)), self.sim.prefetch_pc())),
            Ok(()) if self.sim.hit_halt() => Some(Ending::Halted),
            Ok(()) => None,
        }
    }
    /// Runs to the end in one go, or in segments of drawn lengths.
    pub fn finish(&mut self, mode: u64, budget: u64) -> Ending {
        self.kill.rearm(budget);
        loop {
            let r = match mode {
                0 => self.sim.run(),
                _ => {
                    let n = range(1, 60);
                    self.sim.run_with_limit(n)
                }
            };
            if let Some(e) = self.judge(r) {
                tick(self.kill.polls());
                return e;
            }
            if mode == 0 {
                // run() ended without a halt or an error.
                return Ending::Error("paused", self.sim.pc);
            }
        }
    }
    /// Runs to the end by single steps.
    pub fn finish_stepping(&mut self, budget: u64, halt_at: impl Fn(&Simulator) -> bool) -> Ending {
        self.kill.rearm(budget);
        loop {
            if halt_at(&self.sim) {
                tick(self.kill.polls());
                return Ending::Halted;
            }
            self.sim.mcr().store(true, Relaxed);
            let r = self.sim.step_in();
            match r {
                Err(SimErr::Interrupt(_)) if self.kill.fired() => return Ending::Stuck,
                Err(e) => return Ending::Error(err_name(&Err(e)), self.sim.prefetch_pc()),
                Ok(()) => {}
            }
            if !self.sim.mcr().load(Relaxed) {
                tick(self.kill.polls());
                return Ending::Halted;
            }
        }
    }
}
impl Snap {
    /// First difference in what the program can see.
    pub fn diff(&self, o: &Snap, regs: &[usize], mem: std::ops::Range<usize>) -> Option<(&'static str, String)> {
        for &i in regs {
            if self.r[i] != o.r[i] {
                return Some(("reg", format!("R{i} is x{:04X}, expected x{:04X}", o.r[i], self.r[i])));
            }
        }
        if let Some(a) = mem.clone().find(|&a| self.mem[a] != o.mem[a]) {
            return Some(("mem", format!("mem[x{a:04X}] is x{:04X}, expected x{:04X}", o.mem[a], self.mem[a])));
        }
        if self.out != o.out {
            return Some(("output", format!("output is {:?}, expected {:?}", String::from_utf8_lossy(&o.out), String::from_utf8_lossy(&self.out))));
        }
        None
    }
    pub fn hash(&self) -> u64 {
        let mut h = crate::entropy::hash64(&[self.pc as u64, self.psr as u64, self.ssp as u64, self.count]);
        for v in self.r.iter().chain(&self.mem) {
            h = (h.rotate_left(5) ^ *v as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        }
        for v in &self.out {
            h = (h.rotate_left(5) ^ *v as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        }
        h
    }
}
