//! C16, C30, C31: whole machines driven by a plan drawn in advance, so that
//! the same history can be given to several machines (on other threads, with
//! other operating-system entropy).
use crate::ctx::*;
use crate::devs::*;
use crate::engine::guarded;
use crate::ensure;
use crate::entropy;
use crate::gen::{edge_word, malformed};
use crate::lock::{err_name, omni, REGS, SSP_PORT};
use crate::prog::*;
use lc3_ensemble::asm::{assemble, ObjectFile};
use lc3_ensemble::parse::parse_ast;
use lc3_ensemble::sim::debug::{Breakpoint, Comparator};
use lc3_ensemble::sim::device::{BufferedDisplay, BufferedKeyboard, ExternalDevice, NullDevice, TimerDevice};
use lc3_ensemble::sim::frame::ParameterList;
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::{InternalRegister, SimErr, SimFlags, Simulator};
use std::collections::VecDeque;
use std::fmt::Write;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Arc, RwLock};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fill {
    /// As the initialization strategy left it.
    Strategy,
    /// Instruction-biased words in a range, initialised, uninitialised or mixed.
    Soup { seed: u64, lo: u16, hi: u16, init: u8 },
}
#[derive(Clone, Debug)]
pub struct TimerPlan {
    seed: Option<u64>,
    lo: u32,
    hi: u32,
    vect: u8,
    prio: u8,
    on: bool,
}
#[derive(Clone, Debug)]
pub enum Act {
    Steps(u64),
    While(u64),
    Limit(u64),
    Run(u64),
    Over(u64),
    Out(u64),
    Key(u8),
    Hold { kb: bool, write: bool, steps: u64 },
    Reg(usize, u16),
    UninitReg(usize),
    Mem(u16, u16),
    UninitMem(u16),
    Pc(u16),
    Psr(u16),
    Ssp(u16),
    Mcr(bool),
    Strict(bool),
    RealTraps(bool),
    IgnorePriv(bool),
    DebugFrames(bool),
    Init(MachineInitStrategy),
    Bp(u64, u16),
    RmBps,
    AddDev(Vec<u16>, Vec<Option<u16>>),
    RmDev(u16),
    Mmap(u16, u8),
    Munmap(u16),
    Call(u16),
    Load(usize),
    Reset,
    SubDef(u16, u8),
    Timer { i: usize, on: bool, range: Option<(u32, u32)>, rearm: bool },
    Read(u16),
    Write(u16, u16),
    ClearObserver,
    Recount(u64),
}
#[derive(Clone)]
pub struct Plan {
    pub flags: SimFlags,
    pub fills: Vec<Fill>,
    pub words: Vec<(u16, u16)>,
    pub objs: Vec<Arc<ObjectFile>>,
    pub kb: bool,
    pub ds: bool,
    pub timers: Vec<TimerPlan>,
    pub acts: Vec<Act>,
}

/// What is recorded at one point of the history.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Ob {
    what: &'static str,
    res: &'static str,
    r: [u16; 8],
    rinit: u8,
    pc: u16,
    pre: u16,
    psr: u16,
    count: u64,
    depth: u64,
    halt: bool,
    bp: bool,
    out: usize,
    left: usize,
    extra: u64,
}

pub struct M {
    pub sim: Simulator,
    pub kbuf: Arc<RwLock<VecDeque<u8>>>,
    pub dbuf: Arc<RwLock<Vec<u8>>>,
    pub kill: Kill,
    pub log: Log,
    pub timers: Vec<Arc<RwLock<TimerDevice>>>,
    /// (id, ports) of the custom devices currently attached.
    pub devs: Vec<(u16, u32, Vec<u16>)>,
    pub next_dev: u32,
    /// Internal registers mapped by the history: 0 PC, 1 PSR, 2 MCR, 3 saved SP.
    pub iregs: std::collections::BTreeMap<u16, u8>,
    objs: Vec<Arc<ObjectFile>>,
    pub frames_hash: bool,
}

fn hash_mix(h: u64, v: u64) -> u64 {
    (h.rotate_left(5) ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15)
}
pub fn biased(s: &mut u64) -> u16 {
    let r = entropy::splitmix(s);
    let w = r as u16;
    match r >> 32 & 15 {
        0..=5 => w,
        6 => 0xF000 | w & 0x27,
        7 => 0x8000,
        8 => 0xC000 | w & 0x01C0,
        9 => 0x4000 | w & 0x01C0,
        10 => 0x1020 | w & 0x0FDF,
        11 => 0x3000 | w & 0x0FFF,
        12 => 0xA000 | w & 0x1FFF,
        13 => 0x6000 | w & 0x1FFF,
        14 => [0xFE00, 0xFE02, 0xFE06, 0xFFFC, 0xFFFE, 0xFFFF, 0x0000, 0x2FFF][(w & 7) as usize],
        _ => 0x0E00 | w & 0x01FF,
    }
}

impl M {
    pub fn build(p: &Plan) -> M {
        let mut sim = Simulator::new(p.flags);
        let _ = sim.mmap_internal(SSP_PORT, InternalRegister::SavedSP);
        let (kbuf, dbuf): (Arc<RwLock<VecDeque<u8>>>, Arc<RwLock<Vec<u8>>>) = Default::default();
        if p.kb {
            sim.device_handler.set_keyboard(BufferedKeyboard::new(kbuf.clone()));
        }
        if p.ds {
            sim.device_handler.set_display(BufferedDisplay::new(dbuf.clone()));
        }
        let kill = Kill::new(u64::MAX);
        let _ = sim.device_handler.add_device(kill.clone(), &[]);
        let mut timers = vec![];
        for t in &p.timers {
            let mut d = TimerDevice::new(t.seed, t.lo..=t.hi, t.vect, t.prio);
            d.enabled = t.on;
            let d = Arc::new(RwLock::new(d));
            let _ = sim.device_handler.add_device(d.clone(), &[]);
            timers.push(d);
        }
        let mut m = M {
            sim,
            kbuf,
            dbuf,
            kill,
            log: Log::default(),
            timers,
            devs: vec![],
            next_dev: 0,
            iregs: [(0xFFFC, 1), (0xFFFE, 2), (SSP_PORT, 3)].into(),
            objs: p.objs.clone(),
            frames_hash: true,
        };
        m.image(p);
        m
    }
    pub fn image(&mut self, p: &Plan) {
        for f in &p.fills {
            let Fill::Soup { seed, lo, hi, init } = *f else { continue };
            let mut s = seed;
            for a in lo..=hi {
                let w = biased(&mut s);
                self.sim.mem[a].set(w);
                match init {
                    0 => {}
                    1 => self.sim.mem[a].clear_init(),
                    _ => {
                        if entropy::splitmix(&mut s) & 3 == 0 {
                            self.sim.mem[a].clear_init()
                        }
                    }
                }
            }
        }
        for &(a, w) in &p.words {
            self.sim.mem[a].set(w);
        }
    }
    pub fn ob(&self, what: &'static str, res: &'static str, extra: u64) -> Ob {
        let mut extra = extra;
        if self.frames_hash {
            if let Some(fs) = self.sim.frame_stack.frames() {
                for f in fs.iter().rev().take(4) {
                    extra = hash_mix(extra, (f.caller_addr as u64) << 16 | f.callee_addr as u64);
                    for w in &f.arguments {
                        extra = hash_mix(extra, w.get() as u64);
                    }
                }
            }
        }
        Ob {
            what,
            res,
            r: REGS.map(|r| self.sim.reg_file[r].get()),
            rinit: REGS.iter().enumerate().fold(0, |a, (i, &r)| a | (self.sim.reg_file[r].is_init() as u8) << i),
            pc: self.sim.pc,
            pre: self.sim.prefetch_pc(),
            psr: self.sim.psr().get(),
            count: self.sim.instructions_run,
            depth: self.sim.frame_stack.len(),
            halt: self.sim.hit_halt(),
            bp: self.sim.hit_breakpoint(),
            out: self.dbuf.read().unwrap_or_else(|e| e.into_inner()).len(),
            left: self.kbuf.read().unwrap_or_else(|e| e.into_inner()).len(),
            extra,
        }
    }
    pub fn mem_hash(&self) -> u64 {
        let mut h = 0;
        for a in (0..=0xFFFFu16).step_by(2) {
            let (w, x) = (self.sim.mem[a], self.sim.mem[a + 1]);
            h = hash_mix(h, w.get() as u64 | (w.is_init() as u64) << 16 | (x.get() as u64) << 32 | (x.is_init() as u64) << 48);
        }
        for b in self.dbuf.read().unwrap_or_else(|e| e.into_inner()).iter() {
            h = hash_mix(h, *b as u64);
        }
        h
    }
    fn steps(&mut self, n: u64, obs: &mut Vec<Ob>) {
        for _ in 0..n {
            let r = self.sim.step_in();
            obs.push(self.ob("step", err_name(&r), 0));
            if r.is_err() {
                break;
            }
        }
    }
    /// Runs one action; records what can be seen along the way.
    pub fn apply(&mut self, a: &Act, obs: &mut Vec<Ob>) {
        match a {
            Act::Steps(n) => self.steps(*n, obs),
            Act::While(n) => {
                let mut left = *n;
                let mut seen: Vec<u64> = vec![];
                self.kill.rearm(n + 8);
                let r = self.sim.run_while(|s| {
                    let regs = REGS.iter().fold(0, |h, &r| hash_mix(h, s.reg_file[r].get() as u64));
                    seen.push(hash_mix(regs, s.pc as u64 | (s.psr().get() as u64) << 16 | s.frame_stack.len() << 32));
                    left = left.saturating_sub(1);
                    left > 0
                });
                let h = seen.iter().fold(0, |h, &v| hash_mix(h, v));
                obs.push(self.ob("run_while", err_name(&r), h));
            }
            Act::Limit(n) => {
                self.kill.rearm(n + 8);
                let r = self.sim.run_with_limit(*n);
                obs.push(self.ob("run_with_limit", err_name(&r), 0));
            }
            Act::Run(b) => {
                self.kill.rearm(*b);
                let r = self.sim.run();
                obs.push(self.ob("run", err_name(&r), 0));
            }
            Act::Over(b) => {
                self.kill.rearm(*b);
                let r = self.sim.step_over();
                obs.push(self.ob("step_over", err_name(&r), 0));
            }
            Act::Out(b) => {
                self.kill.rearm(*b);
                let r = self.sim.step_out();
                obs.push(self.ob("step_out", err_name(&r), 0));
            }
            Act::Key(b) => self.kbuf.write().unwrap().push_back(*b),
            Act::Hold { kb, write, steps } => {
                // The same thread cannot hold a guard across `&mut self`, but the buffers are shared.
                let (k, d) = (self.kbuf.clone(), self.dbuf.clone());
                let mut rs = vec![];
                {
                    let _g: Box<dyn std::any::Any>;
                    let (mut kw, mut kr, mut dw, mut dr) = (None, None, None, None);
                    match (kb, write) {
                        (true, true) => kw = Some(k.write().unwrap()),
                        (true, false) => kr = Some(k.read().unwrap()),
                        (false, true) => dw = Some(d.write().unwrap()),
                        (false, false) => dr = Some(d.read().unwrap()),
                    }
                    for _ in 0..*steps {
                        let r = self.sim.step_in();
                        rs.push((err_name(&r), self.sim.pc, self.sim.prefetch_pc()));
                        if r.is_err() {
                            break;
                        }
                    }
                    drop((kw, kr, dw, dr));
                }
                let h = rs.iter().fold(0, |h, r| hash_mix(h, r.1 as u64 | (r.2 as u64) << 16 | (r.0.len() as u64) << 32));
                obs.push(self.ob("steps under a held lock", rs.last().map_or("none", |r| r.0), h));
            }
            Act::Reg(r, v) => self.sim.reg_file[REGS[*r]].set(*v),
            Act::UninitReg(r) => self.sim.reg_file[REGS[*r]].clear_init(),
            Act::Mem(a, v) => self.sim.mem[*a].set(*v),
            Act::UninitMem(a) => self.sim.mem[*a].clear_init(),
            Act::Pc(v) => self.sim.pc = *v,
            Act::Psr(v) => {
                let _ = self.sim.write_mem(0xFFFC, Word::new_init(*v), omni());
            }
            Act::Ssp(v) => {
                let _ = self.sim.write_mem(SSP_PORT, Word::new_init(*v), omni());
            }
            Act::Mcr(v) => self.sim.mcr().store(*v, Relaxed),
            Act::Strict(v) => self.sim.flags.strict = *v,
            Act::RealTraps(v) => self.sim.flags.use_real_traps = *v,
            Act::IgnorePriv(v) => self.sim.flags.ignore_privilege = *v,
            Act::DebugFrames(v) => self.sim.flags.debug_frames = *v,
            Act::Init(s) => self.sim.flags.machine_init = *s,
            Act::Bp(k, v) => {
                self.sim.breakpoints.insert(match k % 4 {
                    0 => Breakpoint::PC(*v),
                    1 => Breakpoint::Reg { reg: REGS[(*v & 7) as usize], value: Comparator::Eq(*v >> 3) },
                    2 => Breakpoint::Mem { addr: *v, value: Comparator::Ne(0) },
                    _ => Breakpoint::Reg { reg: REGS[(*v & 7) as usize], value: Comparator::Ge(0x8000) },
                });
            }
            Act::RmBps => self.sim.breakpoints.clear(),
            Act::AddDev(ports, script) => {
                let id = self.next_dev;
                self.next_dev += 1;
                let d = PortDev {
                    id,
                    log: self.log.clone(),
                    script: Arc::new(std::sync::Mutex::new(script.iter().copied().collect())),
                    reject_writes: Arc::default(),
                };
                let r = self.sim.device_handler.add_device(d, ports);
                if let Ok(n) = r {
                    self.devs.push((n, id, ports.clone()));
                }
                obs.push(self.ob("add_device", if r.is_ok() { "ok" } else { "rejected" }, *r.as_ref().unwrap_or(&0) as u64));
            }
            Act::RmDev(i) => {
                if !self.devs.is_empty() {
                    let (n, ..) = self.devs.remove(*i as usize % self.devs.len());
                    self.sim.device_handler.remove_device(n);
                }
            }
            Act::Mmap(a, k) => {
                let r = match k {
                    0 => InternalRegister::PC,
                    1 => InternalRegister::PSR,
                    2 => InternalRegister::MCR,
                    _ => InternalRegister::SavedSP,
                };
                let ok = self.sim.mmap_internal(*a, r).is_ok();
                if ok {
                    self.iregs.insert(*a, *k);
                }
                obs.push(self.ob("mmap_internal", if ok { "ok" } else { "rejected" }, 0));
            }
            Act::Munmap(a) => {
                let ok = self.sim.munmap_internal(*a);
                if ok {
                    self.iregs.remove(a);
                }
                obs.push(self.ob("munmap_internal", if ok { "ok" } else { "absent" }, 0));
            }
            Act::Call(a) => {
                let r = self.sim.call_subroutine(*a);
                obs.push(self.ob("call_subroutine", err_name(&r), 0));
            }
            Act::Load(i) => {
                let r = match self.objs.get(*i).cloned() {
                    Some(o) => self.sim.load_obj_file(&o),
                    None => Ok(()),
                };
                obs.push(self.ob("load_obj_file", err_name(&r), 0));
            }
            Act::Reset => {
                self.sim.reset();
                obs.push(self.ob("reset", "ok", 0));
            }
            Act::SubDef(a, k) => {
                let p = match k % 6 {
                    0 => ParameterList::with_calling_convention(&["a", "b"]),
                    1 => ParameterList::with_calling_convention(&[]),
                    2 => ParameterList::with_pass_by_register(&[("x", REGS[1]), ("y", REGS[6])], Some(REGS[0])),
                    3 => ParameterList::with_calling_convention(&["a"; 9]),
                    4 => ParameterList::with_pass_by_register(&[], None),
                    _ => ParameterList::with_calling_convention(&["p"; 300]),
                };
                self.sim.frame_stack.set_subroutine_def(*a, p);
            }
            Act::Timer { i, on, range, rearm } => {
                if let Some(t) = self.timers.get(*i) {
                    let mut t = t.write().unwrap();
                    t.enabled = *on;
                    if let Some((lo, hi)) = range {
                        t.set_range(*lo..=*hi);
                    }
                    if *rearm {
                        t.reset_remaining();
                    }
                }
            }
            Act::Read(a) => {
                let r = self.sim.read_mem(*a, omni());
                let v = r.as_ref().map_or(0, |w| w.get() as u64);
                obs.push(self.ob("read_mem", err_name(&r.map(|_| ())), v));
            }
            Act::Write(a, v) => {
                let r = self.sim.write_mem(*a, Word::new_init(*v), omni());
                obs.push(self.ob("write_mem", err_name(&r), 0));
            }
            Act::ClearObserver => self.sim.observer.clear(),
            Act::Recount(n) => self.sim.instructions_run = *n,
        }
    }
}

/// Which actions a scenario may use.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Kinds {
    /// Execution, state pokes and device events only.
    Exec,
    /// Everything except reset.
    Config,
    All,
}

fn addr() -> u16 {
    match weighted(&[5, 6, 2, 2]) {
        0 => 0x3000 + below(0x80) as u16,
        1 => pick(&[
            0x0000, 0x0001, 0xFFFF, 0xFFFE, 0x2FFF, 0x3000, 0x2FFE, 0xFDFF, 0xFE00, 0xFDFE, 0xFE01, 0x01FF, 0x0200, 0x00FF, 0x0100, 0x7FFF, 0x8000,
        ]),
        2 => pick(&[0xFE00, 0xFE02, 0xFE04, 0xFE06, 0xFFFC, 0xFFFE, SSP_PORT]),
        _ => word(),
    }
}
fn port() -> u16 {
    match below(4) {
        0 => 0xFE08 + below(24) as u16,
        1 => pick(&[0xFE00, 0xFE06, 0xFFFC, 0xFFFE, SSP_PORT, 0xFFFF]),
        2 => 0xFE10,
        _ => 0xFE00 + below(0x200) as u16,
    }
}
fn strategy(deterministic: bool) -> MachineInitStrategy {
    match below(if deterministic { 2 } else { 3 }) {
        0 => MachineInitStrategy::Known { value: pick(&[0u16, 0xFFFF, 0x8000, 0x1234, 0xF025, 0xD000, 0x3000]) },
        1 => MachineInitStrategy::Seeded { seed: crate::gen::seed() },
        _ => MachineInitStrategy::Unseeded,
    }
}
fn flags(deterministic: bool) -> SimFlags {
    SimFlags {
        strict: chance(1, 3),
        use_real_traps: coin(),
        machine_init: strategy(deterministic),
        debug_frames: coin(),
        ignore_privilege: chance(1, 4),
    }
}

/// A source of a loadable object file without externals.
fn small_obj() -> Arc<ObjectFile> {
    let mut src = String::new();
    let mut at = 0u32;
    for _ in 0..=below(3) {
        let start = match below(5) {
            0 => 0x3000,
            1 => 0x2FFE,
            2 => pick(&[0u32, 0x200, 0xFDF0, 0x3080]),
            _ => 0x3000 + below(0x4000) as u32,
        };
        if start < at || start >= 0xFDE8 && at > 0xFDE8 {
            continue;
        }
        let n = 1 + below(12) as u32;
        if start + 2 * n > 0xFE00 {
            continue;
        }
        let _ = writeln!(src, ".orig x{start:04X}");
        let mut len = 0;
        for _ in 0..n {
            if chance(1, 4) {
                let k = 1 + below(2) as u32;
                let _ = writeln!(src, ".blkw {k}");
                len += k;
            } else {
                let _ = writeln!(src, ".fill x{:04X}", if coin() { word() } else { edge_word() });
                len += 1;
            }
        }
        let _ = writeln!(src, ".end");
        at = start + len;
    }
    Arc::new(assemble(parse_ast(&src).expect("generated source parses")).expect("generated source assembles"))
}

fn plan(kinds: Kinds, deterministic: bool) -> Plan {
    let fl = span(|| flags(deterministic));
    let structured = chance(1, 2);
    let mut fills = vec![];
    let mut words = vec![];
    let kb = chance(5, 6);
    let ds = chance(5, 6);
    let mut acts: Vec<Act> = vec![];
    let mut timers = vec![];
    for _ in 0..below(3) {
        timers.push(span(|| {
            let lo = below(12) as u32;
            TimerPlan {
                seed: if deterministic || coin() { Some(crate::gen::seed()) } else { None },
                lo,
                hi: lo + below(20) as u32,
                vect: pick(&[0x81u8, 0x80, 0x00, 0x01, 0x02, 0xFF, 0x90]),
                prio: below(9) as u8,
                on: coin(),
            }
        }));
    }
    let mut objs = vec![];
    if kinds != Kinds::Exec {
        for _ in 0..below(3) {
            objs.push(span(small_obj));
        }
    }
    if structured {
        let o = ProgOpts { input: true, ..Default::default() };
        let p = span(|| user_prog(&o));
        p.load(|a, w| words.push((a, w)));
        for &b in &p.input {
            acts.push(Act::Key(b));
        }
        for (i, t) in timers.iter().enumerate() {
            let (h, _) = span(|| handler(0x1000 + 0x100 * i as u16, Ack::None));
            words.push((0x100 + t.vect as u16, h.base));
            for (j, &w) in h.words.iter().enumerate() {
                words.push((h.base + j as u16, w));
            }
        }
        // The routine the handlers may trap into.
        words.push((NEST_VECT, NEST_ROUTINE));
        words.push((NEST_ROUTINE, RTI));
        acts.push(Act::Pc(p.base));
        if coin() {
            acts.push(Act::Psr(0x8002));
        }
    } else {
        for _ in 0..=below(2) {
            fills.push(span(|| match below(4) {
                0 => Fill::Strategy,
                1 => Fill::Soup { seed: any_u64(), lo: 0, hi: 0xFFFF, init: below(3) as u8 },
                2 => Fill::Soup { seed: any_u64(), lo: 0x3000, hi: 0x3200, init: below(3) as u8 },
                _ => Fill::Soup { seed: any_u64(), lo: 0, hi: 0x2FFF, init: below(3) as u8 },
            }));
        }
        for _ in 0..below(24) {
            span(|| {
                let a = addr();
                let w = match below(4) {
                    0 => addr(),
                    1 => malformed(),
                    2 => biased(&mut any_u64()),
                    _ => edge_word(),
                };
                words.push((a, w));
            });
        }
        for r in 0..8 {
            if coin() {
                acts.push(Act::Reg(r, addr()));
            }
        }
        acts.push(Act::Pc(addr()));
        if coin() {
            acts.push(Act::Psr((below(2) as u16) << 15 | (below(8) as u16) << 8 | pick(&[0u16, 1, 2, 4, 7])));
        }
        if coin() {
            acts.push(Act::Ssp(addr()));
        }
    }
    let n = range(2, 24);
    for _ in 0..n {
        let burst = chance(1, if kinds == Kinds::Exec { 8 } else { 24 });
        let a = span(|| if burst { frames_burst() } else { vec![act(kinds, deterministic)] });
        acts.extend(a);
    }
    if chance(1, 8) {
        // A debugger with a long list of breakpoints.
        let n = range(2, 40);
        let at = below(acts.len() as u64 + 1) as usize;
        let many: Vec<Act> = (0..n).map(|_| span(|| Act::Bp(below(4), addr()))).collect();
        acts.splice(at..at, many);
    }
    Plan { flags: fl, fills, words, objs, kb, ds, timers, acts }
}

/// A call into a subroutine whose signature is known, with the stack and the
/// registers at the edges of what its arguments are read from.
fn frames_burst() -> Vec<Act> {
    let (pc, to) = (addr(), addr());
    let k = below(6) as u8;
    let sp = match below(4) {
        0 => 0u16.wrapping_sub(below(10) as u16),
        1 => below(6) as u16,
        2 => 0xFE00u16.wrapping_sub(below(10) as u16),
        _ => addr(),
    };
    let mut v = vec![Act::DebugFrames(true), Act::SubDef(to, k), Act::Reg(6, sp)];
    match below(4) {
        // Traps and interrupts are calls too.
        0 => {
            v.push(Act::Mem(pc, 0xF000 | to & 0xFF));
        }
        1 => v.push(Act::Call(to)),
        _ => {
            let r = pick(&[0u16, 1, 2, 3, 4, 5, 7, 6]);
            if r != 6 {
                v.push(Act::Reg(r as usize, to));
            }
            v.push(Act::Mem(pc, 0x4000 | r << 6));
        }
    }
    if coin() {
        v.push(Act::UninitReg(6));
    }
    v.push(Act::Pc(pc));
    v.push(Act::Steps(range(1, 3)));
    v
}

fn act(kinds: Kinds, deterministic: bool) -> Act {
    let c = if kinds == Kinds::Exec { 0 } else { 1 };
    match weighted(&[20, 8, 4, 4, 4, 6, 10, 8, 3, 4, 4, 4, 3, 2, 4 * c, 3 * c, 3, 2 * c + u32::from(kinds == Kinds::All) * 2]) {
        0 => Act::Steps(range(1, 40)),
        1 => Act::While(range(1, 60)),
        2 => Act::Limit(range(0, 60)),
        3 => Act::Run(range(1, 300)),
        4 => {
            if coin() {
                Act::Over(range(1, 200))
            } else {
                Act::Out(range(1, 200))
            }
        }
        5 => Act::Key(below(256) as u8),
        6 => match below(3) {
            0 => Act::Mem(addr(), addr()),
            1 => Act::Mem(addr(), biased(&mut any_u64())),
            _ => Act::UninitMem(addr()),
        },
        7 => match below(5) {
            0 => Act::UninitReg(below(8) as usize),
            1 => Act::Reg(6, addr()),
            _ => Act::Reg(below(8) as usize, addr()),
        },
        8 => Act::Hold { kb: coin(), write: coin(), steps: range(1, 20) },
        9 => Act::Pc(addr()),
        10 => Act::Psr(if chance(1, 6) { word() } else { (below(2) as u16) << 15 | (below(8) as u16) << 8 | pick(&[0u16, 1, 2, 4, 7]) }),
        11 => Act::Ssp(addr()),
        12 => match below(6) {
            0 => Act::Strict(coin()),
            1 => Act::RealTraps(coin()),
            2 => Act::IgnorePriv(coin()),
            3 => Act::DebugFrames(coin()),
            _ => {
                if kinds == Kinds::Exec {
                    Act::Strict(coin())
                } else {
                    Act::Init(strategy(deterministic))
                }
            }
        },
        13 => {
            if coin() {
                Act::Bp(below(4), addr())
            } else {
                Act::RmBps
            }
        }
        14 => match below(3) {
            0 => Act::AddDev((0..below(3)).map(|_| port()).collect(), (0..below(3)).map(|_| if coin() { Some(word()) } else { None }).collect()),
            1 => Act::RmDev(below(4) as u16),
            _ => {
                let n = range(1, 4);
                Act::AddDev(vec![0xFE10 + below(8) as u16 * 4], (0..n).map(|_| Some(word())).collect())
            }
        },
        15 => {
            if coin() {
                Act::Mmap(port(), below(4) as u8)
            } else {
                Act::Munmap(port())
            }
        }
        16 => Act::Timer {
            i: below(2) as usize,
            on: coin(),
            range: if coin() {
                let lo = below(10) as u32;
                Some((lo, lo + below(10) as u32))
            } else {
                None
            },
            rearm: coin(),
        },
        _ => match below(8) {
            0 => Act::Call(addr()),
            1 => Act::Load(below(3) as usize),
            2 => Act::SubDef(addr(), below(6) as u8),
            3 => Act::Read(addr()),
            4 => Act::Write(addr(), edge_word()),
            5 => Act::ClearObserver,
            6 => Act::Recount(pick(&[0, 7, u64::MAX, u64::MAX - 3])),
            _ => {
                if kinds == Kinds::All {
                    Act::Reset
                } else {
                    Act::Mcr(coin())
                }
            }
        },
    }
}

fn trace_act(a: &Act) {
    trace(|| format!("{a:04x?}"));
}
fn trace_plan(p: &Plan) {
    trace(|| format!("flags {:?}, keyboard {}, display {}, timers {:?}, fills {:04x?}", p.flags, p.kb, p.ds, p.timers, p.fills));
    trace(|| format!("words {:04x?}", p.words));
}
fn count_faults(a: &Act) {
    match a {
        Act::Hold { kb: true, .. } => fault("keyboard buffer locked by another thread"),
        Act::Hold { kb: false, .. } => fault("display buffer locked by another thread"),
        Act::UninitMem(_) | Act::UninitReg(_) => fault("word made uninitialised"),
        Act::Mem(..) | Act::Reg(..) | Act::Pc(_) | Act::Psr(_) | Act::Ssp(_) => fault("machine state overwritten by the host"),
        Act::Timer { on: true, .. } => fault("timer interrupt source enabled"),
        Act::RmDev(_) => fault("device detached"),
        Act::Reset => fault("machine reset"),
        Act::Key(_) => fault("key arrival"),
        Act::Mcr(false) => fault("MCR cleared by the host"),
        _ => {}
    }
}

/// C16: nothing a program or a host can put into a machine makes it panic.
pub fn c16() -> Res {
    let p = plan(Kinds::Exec, false);
    trace_plan(&p);
    let mut m = M::build(&p);
    let mut obs = vec![];
    let mut errs = 0;
    for a in &p.acts {
        trace_act(a);
        count_faults(a);
        obs.clear();
        let before = m.kill.polls();
        m.apply(a, &mut obs);
        tick(m.kill.polls() - before);
        for o in &obs {
            mix(o.pc as u64 | (o.psr as u64) << 16 | (o.pre as u64) << 32);
            // Reach: how the step ended and in which region the PC was.
            state(crate::entropy::hash64(&[o.res.len() as u64, o.res.as_bytes()[o.res.len() - 1] as u64, region(o.pre), region(o.pc), (o.psr >> 8) as u64 & 0x87]));
            if o.res != "ok" {
                errs += 1;
            }
            trace(|| format!("  {} {} pc={:04x} pre={:04x} psr={:04x} r={:04x?}", o.what, o.res, o.pc, o.pre, o.psr, o.r));
        }
        // Every query of the faulting address and of what was reported.
        let _ = m.sim.prefetch_pc();
        let _ = format!("{:?}", m.sim.psr());
    }
    if chance(1, 400) {
        c16_endless(&mut m);
    }
    probe_n("simulator errors reported", errs);
    sched(m.kill.polls() ^ errs << 32);
    nontrivial();
    Ok(())
}
/// Calls or traps that nest for longer than any narrow counter holds, and
/// the way back out of them.
fn c16_endless(m: &mut M) {
    let n = pick(&[300u64, 66_000, 70_000]);
    let kind = below(3);
    trace(|| format!("{n} nested calls, kind {kind}"));
    let at = pick(&[0x3000u16, 0x8000, 0xFDF0]);
    // A subroutine that calls itself, by JSR or JSRR; a trap that does.
    let w = [0x4FFF, 0x4140, 0xF030][kind as usize];
    m.sim.flags.strict = false;
    m.kill.rearm(1 << 40);
    m.sim.mem[0x0030].set(at);
    m.sim.mem[at].set(w);
    m.sim.reg_file[REGS[5]].set(at);
    m.sim.flags.ignore_privilege = kind == 2;
    m.sim.pc = at;
    let mut i = 0u64;
    let before = m.sim.frame_stack.len();
    let r = m.sim.run_while(|_| {
        i += 1;
        i <= n
    });
    trace(|| format!("  {:?}, {} frames", r, m.sim.frame_stack.len()));
    if m.sim.frame_stack.len() > before + 65_535 {
        probe("more than 65535 frames deep");
    }
    // Back out: RET, or RTI from what is on the stack.
    m.sim.mem[at].set(if kind == 2 { 0x8000 } else { 0xC1C0 });
    m.sim.reg_file[REGS[7]].set(at);
    m.sim.pc = at;
    let mut i = 0u64;
    let _ = m.sim.run_while(|_| {
        i += 1;
        i <= n.min(5000)
    });
    m.kill.rearm(5000);
    let _ = m.sim.step_out();
    mix(m.sim.frame_stack.len());
}
fn region(a: u16) -> u64 {
    match a {
        0 => 0,
        1..=0xFF => 1,
        0x100..=0x1FF => 2,
        0x200..=0x2FFF => 3,
        0x3000 => 4,
        0x3001..=0xFDFE => 5,
        0xFDFF => 6,
        0xFE00..=0xFFFE => 7,
        0xFFFF => 8,
    }
}

fn ssp_of(sim: &mut Simulator) -> u16 {
    sim.read_mem(SSP_PORT, omni()).map(|w| w.get()).unwrap_or(0)
}

/// C30: reset after any history.
pub fn c30() -> Res {
    let mut p = plan(Kinds::Config, false);
    let rounds = range(1, 3);
    trace_plan(&p);
    let mut m = M::build(&p);
    let mcr = Arc::clone(m.sim.mcr());
    let mut first = true;
    for round in 0..rounds {
        if !first {
            for _ in 0..range(1, 10) {
                let a = span(|| act(Kinds::Config, false));
                p.acts.push(a);
            }
        }
        first = false;
        let mut obs = vec![];
        for a in std::mem::take(&mut p.acts) {
            trace_act(&a);
            count_faults(&a);
            let before = m.kill.polls();
            m.apply(&a, &mut obs);
            tick(m.kill.polls() - before);
        }
        for o in &obs {
            mix(o.pc as u64 | (o.psr as u64) << 16 | (o.pre as u64) << 32);
            sched(o.pc as u64 ^ (o.res.len() as u64) << 17);
        }
        // A fresh machine must be predictable.
        if m.sim.flags.machine_init == MachineInitStrategy::Unseeded {
            m.sim.flags.machine_init = strategy(true);
        }
        let flags = m.sim.flags;
        let bps: Vec<String> = sorted_bps(&m.sim);
        // Where every I/O address is dispatched, asked before and after.
        let ports: Vec<u16> = (0..12).map(|_| port()).chain([0xFFFC, 0xFFFE, SSP_PORT, 0xFE00, 0xFE02, 0xFE04, 0xFE06]).chain(m.devs.iter().flat_map(|d| d.2.clone())).collect();
        let before: Vec<String> = ports.iter().map(|&a| dispatch(&mut m, a)).collect();
        m.log.lock().unwrap().clear();
        trace(|| format!("reset (round {round}), flags {flags:?}"));
        m.sim.reset();
        fault("machine reset after a history");
        nontrivial();
        // Kept configuration.
        ensure!(m.sim.flags == flags, "flags", "flags are {:?}, were {flags:?}", m.sim.flags);
        ensure!(sorted_bps(&m.sim) == bps, "breakpoints", "breakpoints are {:?}, were {bps:?}", sorted_bps(&m.sim));
        ensure!(Arc::ptr_eq(m.sim.mcr(), &mcr), "mcr", "the MCR handle changed");
        // Fresh state.
        let mut fresh = Simulator::new(flags);
        ensure!(m.sim.pc == fresh.pc, "pc", "PC is x{:04X}, a new machine has x{:04X}", m.sim.pc, fresh.pc);
        ensure!(m.sim.prefetch_pc() == fresh.prefetch_pc(), "pc", "prefetch_pc() is x{:04X}, on a new machine x{:04X}", m.sim.prefetch_pc(), fresh.prefetch_pc());
        ensure!(m.sim.psr().get() == fresh.psr().get(), "psr", "PSR is x{:04X}, a new machine has x{:04X}", m.sim.psr().get(), fresh.psr().get());
        ensure!(m.sim.instructions_run == fresh.instructions_run, "count", "instruction count is {}", m.sim.instructions_run);
        ensure!(m.sim.hit_halt() == fresh.hit_halt() && m.sim.hit_breakpoint() == fresh.hit_breakpoint(), "status", "halt or breakpoint status survives the reset");
        ensure!(
            m.sim.frame_stack.len() == fresh.frame_stack.len(),
            "frames",
            "frame depth is {}, a new machine has {}",
            m.sim.frame_stack.len(),
            fresh.frame_stack.len()
        );
        let fl = |s: &Simulator| s.frame_stack.frames().map(|f| f.len());
        ensure!(fl(&m.sim) == fl(&fresh), "frames", "frame list is {:?}, a new machine has {:?}", fl(&m.sim), fl(&fresh));
        for (i, &r) in REGS.iter().enumerate() {
            let (a, b) = (m.sim.reg_file[r], fresh.reg_file[r]);
            ensure!(a.get() == b.get() && a.is_init() == b.is_init(), "reg", "R{i} is x{:04X} (init {}), a new machine has x{:04X} (init {})", a.get(), a.is_init(), b.get(), b.is_init());
        }
        for a in 0..=0xFFFFu16 {
            let (x, y) = (m.sim.mem[a], fresh.mem[a]);
            ensure!(
                x.get() == y.get() && x.is_init() == y.is_init(),
                "mem",
                "mem[x{a:04X}] is x{:04X} (init {}), a new machine has x{:04X} (init {})",
                x.get(),
                x.is_init(),
                y.get(),
                y.is_init()
            );
        }
        for (r, want) in ports.iter().zip(&before) {
            let got = dispatch(&mut m, *r);
            // A device's answer may change with its own reset; who answers may not.
            let who = |s: &str| s.split(':').next().unwrap_or("").to_string();
            ensure!(who(&got) == who(want), "dispatch", "I/O address x{r:04X} reached {want} before the reset and {got} after it");
            state(crate::entropy::hash64(&[who(want).len() as u64, *r as u64]));
        }
        // Device ids are not reused, attached devices still attached.
        for (n, id, dports) in m.devs.clone() {
            m.log.lock().unwrap().clear();
            if let Some(&pt) = dports.first() {
                m.sim.device_handler.io_read(pt, false);
                let l = m.log.lock().unwrap().clone();
                ensure!(
                    l.iter().any(|e| matches!(e, IoEv::Read { dev, .. } if *dev == id)),
                    "devices",
                    "device {n} at x{pt:04X} is no longer reached after the reset: {l:?}"
                );
            }
        }
        let polls = m.kill.polls();
        let _ = m.sim.device_handler.poll_interrupt();
        ensure!(m.kill.polls() == polls + 1, "devices", "an attached device without ports is no longer polled after the reset");
        let probe_dev = PortDev { id: 9999, log: Log::default(), script: Arc::default(), reject_writes: Arc::default() };
        if let Ok(n) = m.sim.device_handler.add_device(probe_dev, &[]) {
            ensure!(m.devs.iter().all(|d| d.0 < n), "device-ids", "id {n} given out again after the reset");
            m.sim.device_handler.remove_device(n);
        }
        m.sim.pc = 0x1357;
        for (&a, &k) in &m.iregs {
            let want = match k {
                0 => 0x1357,
                1 => m.sim.psr().get(),
                2 => (m.sim.mcr().load(Relaxed) as u16) << 15,
                _ => 0x3000,
            };
            let keep = m.sim.mem[a];
            let got = m.sim.read_mem(a, omni()).map(|w| w.get()).ok();
            m.sim.mem[a] = keep;
            ensure!(got == Some(want), "mappings", "x{a:04X} was mapped to internal register {k} and reads {got:04x?} after the reset, not x{want:04X}");
        }
        m.sim.pc = fresh.pc;
        // Saved stack pointer, through whatever mapping can be made.
        m.sim.munmap_internal(SSP_PORT);
        let _ = m.sim.mmap_internal(SSP_PORT, InternalRegister::SavedSP);
        m.iregs.insert(SSP_PORT, 3);
        let _ = fresh.mmap_internal(SSP_PORT, InternalRegister::SavedSP);
        if dispatch_is_ireg(&mut m, SSP_PORT) {
            let (a, b) = (ssp_of(&mut m.sim), ssp_of(&mut fresh));
            ensure!(a == b, "saved-sp", "saved SP is x{a:04X}, a new machine has x{b:04X}");
        }
    }
    // Nothing else is left behind: the same program runs the same on both.
    if coin() {
        probe("post-reset differential runs");
        for t in &m.timers {
            t.write().unwrap().enabled = false;
        }
        m.sim.breakpoints.clear();
        m.sim.device_handler.set_keyboard(NullDevice);
        m.sim.device_handler.set_display(NullDevice);
        for (n, ..) in std::mem::take(&mut m.devs) {
            m.sim.device_handler.remove_device(n);
        }
        m.sim.reset();
        let mut fresh = Simulator::new(m.sim.flags);
        // The kept mappings are configuration: make them the same on both.
        for s in [&mut m.sim, &mut fresh] {
            for a in 0xFE00..=0xFFFFu16 {
                s.munmap_internal(a);
            }
            let _ = s.mmap_internal(0xFFFC, InternalRegister::PSR);
            let _ = s.mmap_internal(0xFFFE, InternalRegister::MCR);
        }
        let prog = user_prog(&ProgOpts { output: false, ..Default::default() });
        let skip_init = coin();
        let load = |s: &mut Simulator| {
            prog.load(|a, w| s.mem[a].set(w));
            if skip_init {
                s.pc = prog.base.wrapping_add(2);
            } else {
                s.pc = prog.base;
            }
        };
        load(&mut m.sim);
        load(&mut fresh);
        if coin() {
            // Reads and writes through words nobody initialised: in strict
            // mode the outcome depends on what the machine believes is
            // reserved by a loaded file.
            for s in [&mut m.sim, &mut fresh] {
                for (i, w) in [0x2205u16, 0x3205, 0x2004, 0x1261, 0x3003].into_iter().enumerate() {
                    s.mem[0x3000 + i as u16].set(w);
                }
            }
        }
        m.kill.rearm(400);
        for i in 0..300 {
            let (a, b) = (m.sim.step_in(), fresh.step_in());
            tick(2);
            let (na, nb) = (err_name(&a), err_name(&b));
            ensure!(na == nb, "hidden-state", "step {i} after the reset returns {na}, on a new machine {nb}");
            ensure!(
                m.sim.pc == fresh.pc && m.sim.psr().get() == fresh.psr().get() && m.sim.prefetch_pc() == fresh.prefetch_pc(),
                "hidden-state",
                "step {i} after the reset: PC x{:04X} PSR x{:04X}, on a new machine x{:04X} x{:04X}",
                m.sim.pc,
                m.sim.psr().get(),
                fresh.pc,
                fresh.psr().get()
            );
            ensure!(REGS.iter().all(|&r| m.sim.reg_file[r] == fresh.reg_file[r]), "hidden-state", "registers differ at step {i} after the reset");
            ensure!(m.sim.frame_stack.len() == fresh.frame_stack.len(), "hidden-state", "frame depths differ at step {i} after the reset");
            if a.is_err() {
                break;
            }
        }
    }
    Ok(())
}
fn sorted_bps(s: &Simulator) -> Vec<String> {
    let mut v: Vec<String> = s.breakpoints.iter().map(|b| format!("{b:?}")).collect();
    v.sort();
    v
}
/// Who answers an I/O address: `ireg`, `dev N`, a standard device, or `none`.
fn dispatch(m: &mut M, a: u16) -> String {
    m.log.lock().unwrap().clear();
    let keep = m.sim.mem[a];
    let dev = m.sim.device_handler.io_read(a, false);
    let devlog = std::mem::take(&mut *m.log.lock().unwrap());
    // A peek through the memory path; an internal register shadows the device.
    let ctx = lc3_ensemble::sim::MemAccessCtx { io_effects: false, ..omni() };
    let through = m.sim.read_mem(a, ctx).map(|w| w.get());
    let memlog = std::mem::take(&mut *m.log.lock().unwrap());
    m.sim.mem[a] = keep;
    let devname = match devlog.first() {
        Some(IoEv::Read { dev, .. }) => format!("dev {dev}"),
        _ => match (a, dev) {
            (0xFE00 | 0xFE02, _) => "keyboard".into(),
            (0xFE04 | 0xFE06, _) => "display".into(),
            (_, Some(_)) => "some device".into(),
            (_, None) => "none".into(),
        },
    };
    let shadowed = !devlog.is_empty() && memlog.is_empty();
    let ireg = shadowed || m.sim.munmap_internal_probe(a);
    if ireg {
        format!("ireg over {devname}:{through:?}")
    } else {
        format!("{devname}:{through:?}")
    }
}
fn dispatch_is_ireg(m: &mut M, a: u16) -> bool {
    m.sim.munmap_internal_probe(a)
}
/// Whether an internal register is mapped at an address, asked without
/// changing the mapping.
trait IregProbe {
    fn munmap_internal_probe(&mut self, a: u16) -> bool;
}
impl IregProbe for Simulator {
    fn munmap_internal_probe(&mut self, a: u16) -> bool {
        // Mapping fails exactly when the address is taken or not an I/O one.
        match self.mmap_internal(a, InternalRegister::PC) {
            Ok(()) => {
                self.munmap_internal(a);
                false
            }
            Err(_) => a >= 0xFE00,
        }
    }
}

/// C31: one history, two machines.
pub fn c31() -> Res {
    let mut p = plan(Kinds::All, true);
    if chance(1, 3) {
        // A mid-history switch must stay deterministic too.
        p.acts.push(Act::Init(strategy(true)));
        p.acts.push(Act::Reset);
        p.acts.push(Act::Steps(range(1, 20)));
    }
    trace_plan(&p);
    for a in &p.acts {
        trace_act(a);
        count_faults(a);
    }
    // What a known strategy leaves.
    if let MachineInitStrategy::Known { value } = p.flags.machine_init {
        check_known(&Simulator::new(p.flags), value)?;
        probe("known-strategy images checked");
    }
    let (e1, e2) = (any_u64(), any_u64());
    let (n1, n2) = (below(4), below(4));
    fault("different operating-system entropy for the second machine");
    let run = |e: u64, warm: u64| {
        let p = p.clone();
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                entropy::reseed(e);
                guarded(move || {
                    // Other machines made earlier on this thread must not matter.
                    for _ in 0..warm {
                        let _ = Simulator::new(SimFlags { machine_init: MachineInitStrategy::Unseeded, ..Default::default() });
                    }
                    let mut m = M::build(&p);
                    let mut obs = vec![m.ob("built", "ok", m.mem_hash())];
                    let mut marks = vec![];
                    for (i, a) in p.acts.iter().enumerate() {
                        if matches!(a, Act::Reset) {
                            obs.push(m.ob("before reset", "ok", m.mem_hash()));
                        }
                        m.apply(a, &mut obs);
                        let h = if i % 6 == 5 || i + 1 == p.acts.len() || matches!(a, Act::Reset) { m.mem_hash() } else { 0 };
                        marks.push(obs.len());
                        obs.push(m.ob("after action", "ok", h));
                    }
                    let out = m.dbuf.read().unwrap_or_else(|e| e.into_inner()).clone();
                    (obs, marks, out, m.kill.polls())
                })
            })
            .expect("spawn")
            .join()
            .expect("joined")
    };
    let (a, b) = (run(e1, n1 / 2), run(e2, n2));
    let (a, b) = match (a, b) {
        (Ok(a), Ok(b)) => (a, b),
        // A panic is C16's business; both must still agree on it.
        (Err(x), Err(y)) if x == y => {
            probe("histories that panic");
            return Ok(());
        }
        (x, y) => {
            let f = |r: &Result<_, (String, String)>| r.as_ref().err().map(|e| e.0.clone());
            return viol("panics-differ", format!("one machine panicked ({:?}), the other did not ({:?})", f(&x), f(&y)));
        }
    };
    tick(a.3 + b.3);
    nontrivial();
    for o in &a.0 {
        mix(o.pc as u64 | (o.psr as u64) << 16 | o.count << 32);
        sched(o.pc as u64 ^ o.extra);
        state(crate::entropy::hash64(&[o.pc as u64, o.psr as u64]));
    }
    for (i, (x, y)) in a.0.iter().zip(&b.0).enumerate() {
        if x != y {
            let act = a.1.iter().position(|&m| i <= m).map(|k| format!("{:04x?}", p.acts[k]));
            return viol(
                "diverged",
                format!("observation {i} ({}) during {} differs: {} {x:04x?} versus {} {y:04x?}", x.what, act.unwrap_or_default(), "first", "second"),
            );
        }
    }
    ensure!(a.0.len() == b.0.len(), "diverged", "{} observations versus {}", a.0.len(), b.0.len());
    ensure!(a.2 == b.2, "output", "output {:?} versus {:?}", a.2, b.2);
    Ok(())
}
fn check_known(s: &Simulator, value: u16) -> Res {
    let mut os = vec![false; 0x10000];
    for (a, _) in lc3_ensemble::sim::_os_obj_file().addr_iter() {
        os[a as usize] = true;
    }
    for (i, &r) in REGS.iter().enumerate() {
        ensure!(s.reg_file[r].get() == value, "known-reg", "R{i} is x{:04X} under Known x{value:04X}", s.reg_file[r].get());
    }
    for a in 0..0xFE00u16 {
        if !os[a as usize] {
            ensure!(s.mem[a].get() == value, "known-mem", "mem[x{a:04X}] is x{:04X} under Known x{value:04X}", s.mem[a].get());
        }
    }
    Ok(())
}
#[allow(unused)]
fn unused(_: SimErr) {}
