//! C10, second half: an interrupted run ends like the uninterrupted one.
use super::rig::*;
use crate::ctx::*;
use crate::devs::ClockDev;
use crate::ensure;
use crate::lock::known;
use crate::prog::*;
use lc3_ensemble::sim::device::{ExternalDevice, Interrupt, TimerDevice};
use lc3_ensemble::sim::mem::Word;
use lc3_ensemble::sim::SimFlags;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

/// Raises a level-sensitive request at drawn polls; a write to its port
/// acknowledges it.
pub struct LevelDev {
    pub up: Arc<AtomicBool>,
    pub budget: u64,
    pub rate: u64,
    pub vect: u8,
    pub prio: u8,
    pub raised: Arc<AtomicU64>,
    pub polls: u64,
    pub id: u64,
}
impl ExternalDevice for LevelDev {
    fn io_read(&mut self, _: u16, _: bool) -> Option<u16> {
        Some(self.up.load(Relaxed) as u16)
    }
    fn io_write(&mut self, _: u16, _: u16) -> bool {
        self.up.store(false, Relaxed);
        true
    }
    fn io_reset(&mut self) {}
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        self.polls += 1;
        if !self.up.load(Relaxed) && self.budget > 0 && chance(1, self.rate) {
            self.budget -= 1;
            self.up.store(true, Relaxed);
            self.raised.fetch_add(1, Relaxed);
            fault("device interrupt request");
            sched(self.polls << 8 | self.id);
        }
        self.up.load(Relaxed).then(|| Interrupt::vectored(self.vect, self.prio))
    }
}
/// A request that is only asserted for a few polls.
struct PulseDev {
    left: u64,
    budget: u64,
    rate: u64,
    vect: u8,
    prio: u8,
    polls: u64,
    id: u64,
}
impl ExternalDevice for PulseDev {
    fn io_read(&mut self, _: u16, _: bool) -> Option<u16> {
        None
    }
    fn io_write(&mut self, _: u16, _: u16) -> bool {
        false
    }
    fn io_reset(&mut self) {}
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        self.polls += 1;
        if self.left == 0 && self.budget > 0 && chance(1, self.rate) {
            self.budget -= 1;
            self.left = 1 + below(3);
            fault("interrupt pulse");
            sched(self.polls << 8 | self.id);
        }
        if self.left > 0 {
            self.left -= 1;
            return Some(Interrupt::vectored(self.vect, self.prio));
        }
        None
    }
}

struct Src {
    kind: u64,
    vect: u8,
    prio: u8,
    base: u16,
    count_at: u16,
    words: Vec<u16>,
    raised: Arc<AtomicU64>,
}

pub fn transparency() -> Res {
    let supervisor = chance(1, 4);
    let real_traps = coin();
    let flags = SimFlags {
        strict: false,
        use_real_traps: real_traps,
        machine_init: known(pick(&[0u16, 0xFFFF, 0x1234])),
        debug_frames: coin(),
        ignore_privilege: chance(1, 8),
    };
    let prio = if coin() { 0 } else { below(8) as u16 };
    let ends: &[End] = if supervisor || flags.ignore_privilege {
        &[End::Halt]
    } else {
        &[End::Halt, End::Halt, End::Illegal, End::Format, End::AcvLoad, End::AcvStore, End::AcvFetch, End::Rti]
    };
    let prog = user_prog(&ProgOpts {
        input: coin(),
        ends: ends.to_vec(),
        stack: if supervisor { pick(&[0x3000u16, 0x2F00]) } else { pick(&[0xFD00u16, 0x8000, 0xFE00]) },
        base: 0x3000,
        ..Default::default()
    });
    let nsrc = range(1, 3);
    let mut srcs = vec![];
    let mut floor = prio;
    let mut lowering = false;
    for i in 0..nsrc {
        let kb = prog.input.is_empty() && i == 0 && chance(1, 3);
        let kind = if kb { 3 } else { below(3) };
        // Vectors 0-2 are the exceptions': only for programs that raise none.
        let odd: &[u8] = if prog.end == End::Halt { &[0, 1, 2, 0xFF, 0x25] } else { &[0xFF, 0x25] };
        let mut vect = if kb { 0x80 } else if chance(1, 6) { pick(odd) } else { 0x81 + i as u8 };
        if srcs.iter().any(|s: &Src| s.vect == vect) {
            vect = 0x81 + i as u8;
        }
        let base = 0x1000 + 0x100 * i as u16;
        // A handler may let others in again, down to any priority.
        let lower = if chance(1, 5) { Some(below(8) as u16) } else { None };
        if let Some(p) = lower {
            floor = floor.min(p);
            lowering = true;
            probe("handlers that lower their priority");
        }
        let (a, count_at) = handler_lowering(
            base,
            match kind {
                0 => Ack::Port(0xFE40 + i as u16),
                3 if chance(1, 4) => Ack::KeyboardOff,
                3 => Ack::Keyboard,
                _ => Ack::None,
            },
            lower,
        );
        let prio = if kb { 4 } else { below(8) as u8 };
        trace(|| format!("source {i}: kind {kind} vector {vect:02x} priority {prio} handler {:04x?}", a.words));
        srcs.push(Src { kind, vect, prio, base, count_at, words: a.words, raised: Arc::default() });
    }
    let setup = |l: &mut Rig| {
        l.poke_all(prog.base, &prog.words);
        l.poke(NEST_VECT, NEST_ROUTINE);
        l.poke(NEST_ROUTINE, RTI);
        for s in &srcs {
            l.poke_all(s.base, &s.words);
            l.poke(0x100 + s.vect as u16, s.base);
        }
        l.set_psr(if supervisor { 0 } else { 0x8000 } | prio << 8 | 2);
        l.set_reg(6, if supervisor { 0x3000 } else { 0xFD00 });
        l.set_ssp(if supervisor { 0xFD00 } else { 0x3000 });
        l.sim.pc = prog.base;
    };
    trace(|| format!("{flags:?} supervisor={supervisor} priority={prio}"));
    trace(|| prog.dump());

    // Reference: the same machine and program, no interrupts.
    let mut a = Rig::new(flags);
    setup(&mut a);
    a.type_keys(&prog.input);
    let end_a = a.finish(0, 60_000);
    if end_a == Ending::Stuck {
        probe("reference run too long");
        return Ok(());
    }
    let sa = a.snap();
    let polls = a.kill.polls();
    state(polls.min(4000) | (end_a == Ending::Halted) as u64 * 0x10000);

    // The interrupted run.
    let mut b = Rig::new(flags);
    setup(&mut b);
    for (i, s) in srcs.iter().enumerate() {
        let rate = pick(&[3u64, 8, 20, 60]);
        let budget = range(1, 6);
        let id = i as u64;
        match s.kind {
            0 => {
                let d = LevelDev { up: Arc::default(), budget, rate, vect: s.vect, prio: s.prio, raised: s.raised.clone(), polls: 0, id };
                ensure!(b.sim.device_handler.add_device(d, &[0xFE40 + i as u16]).is_ok(), "harness:port", "port");
            }
            1 => {
                let d = PulseDev { left: 0, budget, rate, vect: s.vect, prio: s.prio, polls: 0, id };
                let _ = b.sim.device_handler.add_device(d, &[]);
            }
            2 => {
                let (lo, w) = (range(1, 40) as u32, below(20) as u32);
                let mut t = TimerDevice::new(Some(any_u64()), lo..=lo + w, s.vect, s.prio);
                t.enabled = true;
                let t = Arc::new(Mutex::new(t));
                let t2 = t.clone();
                let mut left = budget;
                let _ = b.sim.device_handler.add_device(
                    ClockDev(move || {
                        let mut t = t2.lock().unwrap();
                        let r = t.poll_interrupt();
                        if r.is_some() {
                            fault("timer interrupt request");
                            left -= 1;
                            if left == 0 {
                                t.enabled = false;
                            }
                        }
                        r
                    }),
                    &[],
                );
            }
            _ => {
                let _ = b.sim.write_mem(0xFE00, Word::new_init(0x4000), crate::lock::omni());
            }
        }
    }
    // Typing: either the program's input, arriving late, or keys for the
    // keyboard interrupt handler.
    let kb_src = srcs.iter().any(|s| s.kind == 3);
    let mut pending: Vec<u8> = if kb_src { (0..range(1, 5)).map(|_| below(256) as u8).collect() } else { prog.input.clone() };
    pending.reverse();
    let late = kb_src || coin();
    if !late {
        b.type_keys(&prog.input);
        pending.clear();
    }
    let kbuf = b.kbuf.clone();
    let mut polls_b = 0u64;
    let _ = b.sim.device_handler.add_device(
        ClockDev(move || {
            polls_b += 1;
            if !pending.is_empty() && (polls_b > 4000 || chance(1, 12)) {
                kbuf.write().unwrap().push_back(pending.pop().unwrap());
                fault("key typed at a boundary");
                sched(polls_b << 8 | 0xFE);
            }
            None
        }),
        &[],
    );
    let bound = polls + 4200 + 6 * 3 * 3 * 400 + 2000;
    let stepping = chance(1, 4);
    let end_b = if stepping {
        b.finish_stepping(bound, |s| !real_traps && s.mem[s.pc].get() == HALT)
    } else {
        let mode = below(2);
        b.finish(mode, bound)
    };
    ensure!(
        end_b != Ending::Stuck,
        "transparent:stuck",
        "the uninterrupted run ends after {polls} cycles ({end_a:?}); with interrupts it has not ended after {bound}"
    );
    ensure!(end_a == end_b, "transparent:ending", "the run ended in {end_b:?}, the uninterrupted one in {end_a:?}");
    let sb = b.snap();
    let mut taken = 0;
    for s in &srcs {
        let c = b.sim.mem[s.count_at].get() as u64;
        taken += c;
        if s.prio as u16 <= floor {
            ensure!(c == 0, "transparent:gate", "a source of priority {} was served {c} times at priority {floor} or above", s.prio);
        }
        // A handler that lowers its priority can let an unacknowledged source in again.
        if s.kind == 0 && !lowering {
            let raised = s.raised.load(Relaxed);
            ensure!(c <= raised, "transparent:spurious", "{c} interrupts were served for {raised} requests");
        }
    }
    probe_n("handler activations", taken);
    if taken > 0 {
        nontrivial();
    }
    if let Some((c, m)) = sa.diff(&sb, &[0, 1, 2, 3, 4, 5, 6, 7], 0x3000..0xFE00) {
        return viol(format!("transparent:{c}"), format!("{m} after {taken} interrupts"));
    }
    ensure!(sa.pc == sb.pc, "transparent:pc", "PC is x{:04X}, expected x{:04X}", sb.pc, sa.pc);
    ensure!(sa.psr == sb.psr, "transparent:psr", "PSR is x{:04X}, expected x{:04X} after {taken} interrupts", sb.psr, sa.psr);
    ensure!(sa.ssp == sb.ssp, "transparent:saved-sp", "saved SP is x{:04X}, expected x{:04X}", sb.ssp, sa.ssp);
    ensure!(sa.depth == sb.depth, "transparent:depth", "frame depth is {}, expected {}", sb.depth, sa.depth);
    if !kb_src {
        ensure!(sa.left == sb.left || late, "transparent:input", "unread input {:02x?}, expected {:02x?}", sb.left, sa.left);
    }
    mix(sb.hash());
    mix(b.kill.polls());
    Ok(())
}

pub fn c10() -> Res {
    if chance(1, 3) {
        transparency()
    } else {
        super::step::c10_gating()
    }
}
