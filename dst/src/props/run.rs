//! C13: every way of running equals repeated single steps up to the first
//! boundary where its condition holds.
use super::rig::*;
use crate::ctx::*;
use crate::devs::HostSignal;
use crate::ensure;
use crate::lock::{err_name, known, REGS};
use crate::prog::*;
use lc3_ensemble::sim::debug::{Breakpoint, Comparator};
use lc3_ensemble::sim::device::{ExternalDevice, Interrupt, TimerDevice};
use lc3_ensemble::sim::{SimFlags, Simulator};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Arc;

#[derive(Clone, Copy, Debug)]
enum Ev {
    Raise(usize),
    Key(u8),
    ClearMcr,
    External,
}
/// A device that acts at fixed polls: both machines meet the same schedule.
struct Conductor {
    polls: Arc<AtomicU64>,
    events: Vec<(u64, Ev)>,
    next: usize,
    srcs: Vec<(u8, u8)>,
    up: Vec<bool>,
    kbuf: KBuf,
    mcr: Arc<AtomicBool>,
}
const ACK: u16 = 0xFE40;
impl ExternalDevice for Conductor {
    fn io_read(&mut self, a: u16, _: bool) -> Option<u16> {
        Some(self.up[(a - ACK) as usize] as u16)
    }
    fn io_write(&mut self, a: u16, _: u16) -> bool {
        self.up[(a - ACK) as usize] = false;
        true
    }
    fn io_reset(&mut self) {}
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        let now = self.polls.fetch_add(1, Relaxed);
        let mut ext = false;
        while let Some(&(t, e)) = self.events.get(self.next) {
            if t > now {
                break;
            }
            self.next += 1;
            match e {
                Ev::Raise(i) => self.up[i] = true,
                Ev::Key(b) => self.kbuf.write().unwrap().push_back(b),
                Ev::ClearMcr => self.mcr.store(false, Relaxed),
                Ev::External => ext = true,
            }
        }
        if ext {
            return Some(Interrupt::external(HostSignal));
        }
        let best = self.srcs.iter().zip(&self.up).filter(|x| *x.1).max_by_key(|x| x.0 .1)?.0;
        Some(Interrupt::vectored(best.0, best.1))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Cmp {
    Never,
    Lt,
    Eq,
    Le,
    Gt,
    Ne,
    Ge,
    Always,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Bp {
    Pc(u16),
    Reg(usize, Cmp, u16),
    Mem(u16, Cmp, u16),
}
fn cmp_holds(c: Cmp, have: u16, v: u16) -> bool {
    let o = have.cmp(&v);
    match c {
        Cmp::Never => false,
        Cmp::Always => true,
        Cmp::Lt => o.is_lt(),
        Cmp::Le => !o.is_gt(),
        Cmp::Eq => o.is_eq(),
        Cmp::Ne => !o.is_eq(),
        Cmp::Gt => o.is_gt(),
        Cmp::Ge => !o.is_lt(),
    }
}
fn comparator(c: Cmp, v: u16) -> Comparator {
    match c {
        Cmp::Never => Comparator::Never,
        Cmp::Always => Comparator::Always,
        Cmp::Lt => Comparator::Lt(v),
        Cmp::Le => Comparator::Le(v),
        Cmp::Eq => Comparator::Eq(v),
        Cmp::Ne => Comparator::Ne(v),
        Cmp::Gt => Comparator::Gt(v),
        Cmp::Ge => Comparator::Ge(v),
    }
}
impl Bp {
    fn real(&self) -> Breakpoint {
        match *self {
            Bp::Pc(a) => Breakpoint::PC(a),
            Bp::Reg(r, c, v) => Breakpoint::Reg { reg: REGS[r], value: comparator(c, v) },
            Bp::Mem(a, c, v) => Breakpoint::Mem { addr: a, value: comparator(c, v) },
        }
    }
    fn holds(&self, s: &Simulator) -> bool {
        match *self {
            Bp::Pc(a) => s.pc == a,
            Bp::Reg(r, c, v) => cmp_holds(c, s.reg_file[REGS[r]].get(), v),
            Bp::Mem(a, c, v) => cmp_holds(c, s.mem[a].get(), v),
        }
    }
}

/// A caller's tripwire: goes on while this holds.
#[derive(Clone, Copy, Debug)]
enum Wire {
    Calls(u64),
    PcNot(u16),
    RegNot(usize, u16),
    DepthMax(u64),
    Forever,
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Run,
    Limit(u64),
    While(Wire, Option<u64>),
    Over,
    Out,
    In,
}
impl Wire {
    fn go(&self, s: &Simulator, calls: u64) -> bool {
        match *self {
            Wire::Calls(n) => calls < n,
            Wire::PcNot(a) => s.pc != a,
            Wire::RegNot(r, v) => s.reg_file[REGS[r]].get() != v,
            Wire::DepthMax(d) => s.frame_stack.len() <= d,
            Wire::Forever => true,
        }
    }
}

#[derive(Default, Debug, Clone, Copy)]
struct Why {
    halt: bool,
    mcr: bool,
    bp: bool,
    wire: bool,
    error: Option<&'static str>,
}

/// The reference: single steps on `g` until the condition of `op` holds.
fn reference(g: &mut Rig, op: Op, bps: &[Bp], budget: &mut u64) -> Why {
    let (depth0, count0) = (g.sim.frame_stack.len(), g.sim.instructions_run);
    let mut w = Why::default();
    if matches!(op, Op::Out) && depth0 == 0 {
        w.wire = true;
        return w;
    }
    let mut steps = 0u64;
    loop {
        let (depth, ran) = (g.sim.frame_stack.len(), g.sim.instructions_run.wrapping_sub(count0));
        let go = match op {
            Op::Run => true,
            Op::Limit(n) => ran < n,
            Op::While(t, clear) => {
                if clear == Some(steps) {
                    w.mcr = true;
                }
                t.go(&g.sim, steps)
            }
            Op::Over => steps == 0 || depth > depth0,
            Op::Out => steps == 0 || depth >= depth0,
            Op::In => steps == 0,
        };
        if !go {
            w.wire = true;
        }
        if w.wire || w.mcr || w.bp {
            return w;
        }
        if *budget == 0 {
            w.error = Some("budget");
            return w;
        }
        *budget -= 1;
        steps += 1;
        if !single(g, bps, op, &mut w) {
            return w;
        }
    }
}
/// One single step; false when the run ends with it.
fn single(g: &mut Rig, bps: &[Bp], op: Op, w: &mut Why) -> bool {
    let (pc, word) = (g.sim.pc, g.sim.mem[g.sim.pc].get());
    let (c, d) = (g.sim.instructions_run, g.sim.frame_stack.len());
    g.sim.mcr().store(true, Relaxed);
    let r = g.sim.step_in();
    tick(1);
    w.mcr |= !g.sim.mcr().load(Relaxed);
    if let Err(e) = r {
        w.error = Some(err_name(&Err(e)));
        return false;
    }
    if !g.sim.flags.use_real_traps
        && word == HALT
        && g.sim.pc == pc
        && g.sim.instructions_run == c
        && g.sim.frame_stack.len() == d
    {
        w.halt = true;
        return false;
    }
    w.bp = !matches!(op, Op::In) && bps.iter().any(|b| b.holds(&g.sim));
    true
}

pub fn c13() -> Res {
    let host_clears = chance(1, 3);
    let flags = SimFlags {
        strict: false,
        use_real_traps: coin(),
        machine_init: known(pick(&[0u16, 0x1234])),
        debug_frames: coin(),
        ignore_privilege: !host_clears && chance(1, 4),
    };
    let supervisor = chance(1, 5);
    let ends: &[End] = &[End::Halt, End::Halt, End::Illegal, End::AcvLoad, End::AcvStore, End::AcvFetch, End::Rti, End::BadTrap];
    // Programs beyond the width of a narrow counter, in depth or in length.
    let big = if chance(1, 40) { range(1, 2) } else { 0 };
    let mut prog = user_prog(&ProgOpts {
        input: coin(),
        ends: if supervisor || flags.ignore_privilege { vec![End::Halt, End::Illegal, End::BadTrap] } else { ends.to_vec() },
        stack: if supervisor { 0x3000 } else { 0xFD00 },
        base: 0x3000,
        edge: true,
        ..Default::default()
    });
    if big == 1 {
        let n = if chance(1, 20) { pick(&[0u16, 65_534]) } else { range(253, 260) as u16 };
        let m = pick(&[n, n.wrapping_sub(1), n.saturating_add(2), n / 2]);
        prog = deep_prog(0x3000, n, m);
    } else if big == 2 {
        prog = long_prog(0x3000, if chance(1, 5) { pick(&[40_000u16, 32_767, 65_535]) } else { pick(&[126u16, 128, 300, 3000]) });
    }
    if big != 0 {
        probe("programs with long or deep executions");
    }
    // A program that looks at the MCR, where it may.
    let mut probe_prog = None;
    if big == 0 && supervisor && !host_clears && coin() {
        let mut a = Asm::new(0x2E00);
        let [k, m] = std::array::from_fn(|_| a.label());
        a.ldi(0, m);
        a.br(4, k);
        a.w(HALT);
        a.bind(k);
        a.konst(1, prog.base);
        a.w(0xC040);
        a.bind(m);
        a.w(0xFFFE);
        assert!(a.finish());
        probe_prog = Some(a);
    }
    let nsrc = below(3) as usize;
    let srcs: Vec<(u8, u8)> = (0..nsrc).map(|i| (0x81 + i as u8, below(8) as u8)).collect();
    let handlers: Vec<Asm> = (0..nsrc).map(|i| handler(0x1000 + 0x100 * i as u16, Ack::Port(ACK + i as u16)).0).collect();
    let horizon = pick(&[60u64, 300, 1500]);
    let mut events: Vec<(u64, Ev)> = vec![];
    for i in 0..nsrc {
        for _ in 0..range(1, 5) {
            events.push((below(horizon), Ev::Raise(i)));
        }
    }
    for &b in &prog.input {
        events.push((if coin() { 0 } else { below(horizon) }, Ev::Key(b)));
    }
    if host_clears {
        for _ in 0..range(1, 4) {
            events.push((below(horizon), Ev::ClearMcr));
        }
    }
    if chance(1, 4) {
        for _ in 0..range(1, 2) {
            events.push((below(horizon), Ev::External));
        }
    }
    events.sort_by_key(|e| e.0);
    for (t, e) in &events {
        fault(match e {
            Ev::Raise(_) => "device interrupt request",
            Ev::Key(_) => "key typed at a boundary",
            Ev::ClearMcr => "host clears the MCR",
            Ev::External => "external interrupt",
        });
        sched(t << 8);
    }
    let timer = chance(1, 3).then(|| (any_u64(), range(3, 60) as u32, below(20) as u32, below(8) as u8));
    trace(|| format!("{flags:?} supervisor={supervisor} events {events:?} sources {srcs:?} timer {timer:?}"));
    trace(|| prog.dump());
    let prio = if coin() { 0 } else { below(8) as u16 };
    let build = || {
        let mut g = Rig::new(flags);
        prog.load(|a, w| g.poke(a, w));
        g.poke(NEST_VECT, NEST_ROUTINE);
        g.poke(NEST_ROUTINE, RTI);
        for (h, s) in handlers.iter().zip(&srcs) {
            g.poke_all(h.base, &h.words);
            g.poke(0x100 + s.0 as u16, h.base);
        }
        g.poke_all(0x1800, &[RTI]);
        g.poke(0x190, 0x1800);
        g.set_psr(if supervisor { 0 } else { 0x8000 } | prio << 8 | 2);
        g.set_reg(6, if supervisor { 0x3000 } else { 0xFD00 });
        g.set_ssp(if supervisor { 0xFD00 } else { 0x3000 });
        g.sim.pc = prog.base;
        if let Some(a) = &probe_prog {
            g.poke_all(a.base, &a.words);
            g.sim.pc = a.base;
        }
        let polls: Arc<AtomicU64> = Arc::default();
        let d = Conductor {
            polls: polls.clone(),
            events: events.clone(),
            next: 0,
            srcs: srcs.clone(),
            up: vec![false; 3],
            kbuf: g.kbuf.clone(),
            mcr: g.sim.mcr().clone(),
        };
        let _ = g.sim.device_handler.add_device(d, &[ACK, ACK + 1, ACK + 2]);
        if let Some((seed, lo, w, p)) = timer {
            let mut t = TimerDevice::new(Some(seed), lo..=lo + w, 0x90, p);
            t.enabled = true;
            let _ = g.sim.device_handler.add_device(t, &[]);
        }
        (g, polls)
    };
    let ((mut a, polls_a), (mut b, polls_b)) = (build(), build());
    let mut budget = if big == 0 { 6000u64 } else { 1_200_000 };
    let count0 = pick(&[0u64, 0, 5, u32::MAX as u64 - 20]);
    (a.sim.instructions_run, b.sim.instructions_run) = (count0, count0);
    let mut bps: Vec<Bp> = vec![];
    let plain = chance(1, 6);
    let mut ops = 0;
    let mut after_end = below(3);
    loop {
        ops += 1;
        let op = span(|| {
            if !plain && chance(1, 2) {
                bps.clear();
                a.sim.breakpoints.clear();
                for _ in 0..if chance(1, 10) { range(8, 40) } else { below(3) } {
                    let c = pick(&[Cmp::Eq, Cmp::Eq, Cmp::Lt, Cmp::Le, Cmp::Gt, Cmp::Ge, Cmp::Ne, Cmp::Never, Cmp::Always]);
                    let v = match below(3) {
                        0 => below(16) as u16,
                        1 => b.reg(below(8) as usize),
                        _ => word(),
                    };
                    let near = prog.base + below(prog.words.len() as u64) as u16;
                    let x = match below(4) {
                        0 => Bp::Pc(pick(&[near, near, 0x1000, 0x1100, b.sim.mem[0x21].get(), 0x1800])),
                        1 => Bp::Reg(below(8) as usize, c, v),
                        2 => Bp::Mem(pick(&[near, 0xFCFF, 0x2FFF, 0xFE00, 0xFE06]), c, v),
                        _ => Bp::Pc(near),
                    };
                    if !bps.contains(&x) {
                        bps.push(x);
                    }
                }
                for x in &bps {
                    a.sim.breakpoints.insert(x.real());
                }
                fault("host changes breakpoints");
            }
            if plain {
                return Op::Run;
            }
            match weighted(&[2, 4, 4, 4, 4, 2]) {
                0 => Op::Run,
                1 if big != 0 => Op::Limit(pick(&[1u64, 3, 7, 255, 256, 257, 510, 700, 65_535, 65_536, 65_537, u64::MAX, 1 << 32])),
                1 => Op::Limit(pick(&[0u64, 1, 2, 3, 7, 30, 200, u64::MAX, u64::MAX - 3, 1 << 32])),
                2 => {
                    let near = prog.base + below(prog.words.len() as u64) as u16;
                    let w = match below(5) {
                        0 => Wire::Calls(if big != 0 { pick(&[20u64, 255, 256, 300, 65_536]) } else { below(40) }),
                        1 => Wire::PcNot(near),
                        2 => Wire::RegNot(below(8) as usize, below(8) as u16),
                        3 => Wire::DepthMax(if big == 1 { pick(&[3u64, 254, 255, 256, 65_535]) } else { below(4) }),
                        _ => Wire::Forever,
                    };
                    Op::While(w, (host_clears && coin()).then(|| below(20)))
                }
                3 => Op::Over,
                4 => Op::Out,
                _ => Op::In,
            }
        });
        sched(ops << 32 | match op {
            Op::Run => 0,
            Op::Limit(n) => 1 + (n.min(1000) << 3),
            Op::While(..) => 2,
            Op::Over => 3,
            Op::Out => 4,
            Op::In => 5,
        });
        trace(|| format!("op {ops}: {op:?} at x{:04X} depth {} breakpoints {bps:?}", b.sim.pc, b.sim.frame_stack.len()));
        let left0 = budget;
        let why = reference(&mut b, op, &bps, &mut budget);
        trace(|| format!("   reference: {} steps, {why:?}, now at x{:04X}", left0 - budget, b.sim.pc));
        if why.error == Some("budget") {
            probe("executions cut at the step budget");
            return Ok(());
        }
        // The machine under test; stuck when it outlives the reference.
        a.kill.rearm(left0 - budget + 2);
        // A single step runs the machine whether or not it was left stopped.
        if matches!(op, Op::In) && coin() {
            a.sim.mcr().store(true, Relaxed);
        }
        let mut calls = 0;
        let mcr = a.sim.mcr().clone();
        let r = match op {
            Op::Run => a.sim.run(),
            Op::Limit(n) => a.sim.run_with_limit(n),
            Op::While(t, clear) => a.sim.run_while(|s| {
                if clear == Some(calls) {
                    mcr.store(false, Relaxed);
                }
                let go = t.go(s, calls);
                calls += 1;
                go
            }),
            Op::Over => a.sim.step_over(),
            Op::Out => a.sim.step_out(),
            Op::In => a.sim.step_in(),
        };
        let at = format!("{op:?} (operation {ops}, {} reference steps, {why:?})", left0 - budget);
        ensure!(!a.kill.fired(), "run:overrun", "{at}: has not stopped where repeated single steps do");
        let name = err_name(&r);
        // A cleared MCR may take effect one instruction later, unless something
        // else stops the run right there.
        let mut why = why;
        if why.mcr && !why.bp && !why.wire && !why.halt && why.error.is_none() && polls_a.load(Relaxed) == polls_b.load(Relaxed) + 1 {
            probe("ran one instruction after the MCR was cleared");
            single(&mut b, &bps, op, &mut why);
            if let Op::While(t, _) = op {
                why.wire |= !t.go(&b.sim, calls + 1);
            }
        }
        let (sa, sb) = (a.snap(), b.snap());
        if let Some((c, m)) = differs(&sa, &sb) {
            return viol(format!("run:{c}"), format!("{at}: {m}"));
        }
        ensure!(name == why.error.unwrap_or("Ok"), "run:result", "{at}: returned {name}, single steps return {}", why.error.unwrap_or("Ok"));
        if !matches!(op, Op::In) && !(matches!(op, Op::Out) && sb.depth == 0 && left0 == budget) {
            let (hb, hh) = (a.sim.hit_breakpoint(), a.sim.hit_halt());
            ensure!(!(hb && hh), "run:status", "{at}: both a halt and a breakpoint are reported");
            if why.error.is_none() {
                ensure!(!hb || why.bp, "run:breakpoint", "{at}: a breakpoint hit is reported, none matches");
                ensure!(!hh || why.halt || why.mcr, "run:halt", "{at}: a halt is reported");
                ensure!(!(why.bp && !why.mcr) || hb, "run:breakpoint", "{at}: a breakpoint matched but is not reported");
                ensure!(!(why.halt) || hh, "run:halt", "{at}: a halt is not reported");
                ensure!(!(why.mcr && !why.bp && !why.wire) || hh, "run:halt", "{at}: the MCR was cleared, no halt is reported");
            } else {
                ensure!(!hb && !hh, "run:status", "{at}: a halt or breakpoint is reported for a run that ended in an error");
            }
        }
        probe(match op {
            Op::Run => "run",
            Op::Limit(_) => "run_with_limit",
            Op::While(..) => "run_while",
            Op::Over => "step_over",
            Op::Out => "step_out",
            Op::In => "step_in",
        });
        state(
            (ops.min(3)) | (why.halt as u64) << 2 | (why.mcr as u64) << 3 | (why.bp as u64) << 4 | (why.wire as u64) << 5
                | (name.len() as u64) << 6 | (sb.depth.min(7)) << 12 | (left0 - budget).min(255) << 16 | (why.error.is_some() as u64) << 30,
        );
        if left0 - budget > 1 {
            nontrivial();
        }
        mix(sa.hash());
        if why.halt || why.error.is_some_and(|e| e != "Interrupt") || (why.mcr && flags.use_real_traps && sb.r[7] == 0) || ops > 60 {
            if after_end == 0 || ops > 60 {
                return Ok(());
            }
            after_end -= 1;
        }
    }
}

fn differs(a: &Snap, b: &Snap) -> Option<(&'static str, String)> {
    if a.pc != b.pc {
        return Some(("pc", format!("PC is x{:04X}, by single steps x{:04X}", a.pc, b.pc)));
    }
    if a.count != b.count {
        return Some(("count", format!("{} instructions were run, by single steps {}", a.count, b.count)));
    }
    if a.psr != b.psr || a.ssp != b.ssp {
        return Some(("psr", format!("PSR x{:04X} saved SP x{:04X}, by single steps x{:04X} x{:04X}", a.psr, a.ssp, b.psr, b.ssp)));
    }
    if a.depth != b.depth {
        return Some(("depth", format!("frame depth is {}, by single steps {}", a.depth, b.depth)));
    }
    if a.left != b.left {
        return Some(("input", format!("unread input {:02x?}, by single steps {:02x?}", a.left, b.left)));
    }
    b.diff(a, &[0, 1, 2, 3, 4, 5, 6, 7], 0..0x10000)
}
