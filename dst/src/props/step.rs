//! Lockstep properties: C08 (ISA), C27 (frame stack), C28 (access observer).
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::lock::*;
use crate::model::*;
use crate::prog::*;
use lc3_ensemble::sim::SimFlags;

/// Builds a machine with a random device population and start state.
pub fn chaos_machine(debug_frames: bool) -> Lock {
    span(|| {
        let flags = SimFlags {
            strict: false,
            use_real_traps: coin(),
            machine_init: known(pick(&[0u16, 0xFFFF, 0x1234, 0xF025])),
            debug_frames,
            ignore_privilege: chance(1, 6),
        };
        trace(|| format!("machine: {flags:?}"));
        let mut l = Lock::new(flags);
        if !chance(1, 5) {
            l.attach_kb();
        }
        if !chance(1, 5) {
            l.attach_ds();
        }
        for _ in 0..below(3) {
            let mut ps = vec![];
            for _ in 0..=below(3) {
                ps.push(pick(&[0xFE10u16, 0xFE11, 0xFFFF, 0xFFFD, 0xFE05, 0xFE08, 0xFF00, 0xFE01, 0xFFF1]));
            }
            ps.sort();
            ps.dedup();
            if ps.iter().all(|p| !l.tw.owner.contains_key(p)) && l.add_port_dev(&ps).is_some() {
                trace(|| format!("device on ports {ps:04x?}"));
            }
        }
        for _ in 0..below(4) {
            l.add_line();
        }
        if chance(1, 8) {
            l.map_ireg(pick(&[0xFE20, 0xFFEE]), pick(&[IReg::Pc, IReg::SavedSp, IReg::Psr]));
        }
        // Start state.
        for r in 0..8 {
            let v = if coin() { edge_word() } else { edge_addr(&l) };
            l.set_reg(r, v);
        }
        let sp = match below(5) {
            0 => 0xFD00,
            1 => 0x3000,
            2 => edge_addr(&l),
            3 => pick(&[0u16, 1, 2, 0xFFFF, 0xFE00, 0xFE01, 0xFE02]),
            _ => 0x2F00,
        };
        l.set_reg(6, sp);
        if coin() {
            let v = if coin() { 0x3000 } else { edge_addr(&l) };
            l.set_saved_sp(v);
        }
        let p = psr_value();
        l.set_psr(p);
        let pc = if coin() { 0x3000 } else { edge_addr(&l) };
        l.set_pc(pc);
        l
    })
}

/// What the environment does at one instruction boundary.
pub fn environment(l: &mut Lock) {
    for i in 0..l.lines.len() {
        if chance(1, 6) {
            let irq = Irq {
                vect: if coin() { 0x80 + below(4) as u8 } else { pick(&[0u8, 1, 2, 0xFF, 0x25, 0x80]) },
                prio: below(8) as u8,
                external: chance(1, 20),
            };
            l.lines[i].set(Some(irq));
            if coin() {
                let t = edge_addr(l);
                l.poke(0x100 + irq.vect as u16, t);
            }
            fault(if irq.external { "external interrupt" } else { "device interrupt request" });
            sched(l.steps << 16 | (i as u64) << 12 | irq.prio as u64);
        } else if chance(1, 2) {
            l.lines[i].set(None);
        }
    }
    if l.tw.kb_on && chance(1, 10) {
        let b = below(256) as u8;
        l.type_key(b);
        fault("key typed at a boundary");
        sched(l.steps << 16 | 0xB000 | b as u64);
    }
    for i in 0..l.ports.len() {
        if chance(1, 6) {
            let v = if chance(1, 4) {
                fault("device does not answer a read");
                None
            } else {
                Some(edge_word())
            };
            let mut s = l.ports[i].script.lock().unwrap();
            s.clear();
            s.push_back(v);
        }
        if chance(1, 8) {
            let rej = coin();
            l.ports[i].reject.store(rej, std::sync::atomic::Ordering::Relaxed);
            if rej {
                fault("device rejects writes");
            }
        }
    }
    if chance(1, 16) {
        let p = psr_value();
        l.set_psr(p);
        fault("host changes PSR");
    }
    if chance(1, 12) {
        let pc = edge_addr(l);
        l.set_pc(pc);
        fault("host moves PC");
    }
    if chance(1, 12) {
        let r = below(8) as usize;
        let v = if coin() { edge_addr(l) } else { edge_word() };
        l.set_reg(r, v);
        fault("host changes a register");
    }
}

pub fn mix_of(i: u64) -> Mix {
    match i {
        0 => Mix { alu: 6, mem: 8, flow: 5, trap: 3, rti: 2, bad: 1, raw: 2 },
        1 => Mix { alu: 1, mem: 12, flow: 1, trap: 0, rti: 0, bad: 0, raw: 0 },
        2 => Mix { alu: 1, mem: 1, flow: 6, trap: 6, rti: 6, bad: 1, raw: 0 },
        3 => Mix { alu: 1, mem: 0, flow: 0, trap: 0, rti: 0, bad: 4, raw: 4 },
        _ => Mix { alu: 10, mem: 3, flow: 2, trap: 0, rti: 0, bad: 0, raw: 0 },
    }
}

fn observe(l: &Lock, r: &Report) {
    match r.log.kind {
        Kind::Interrupt(..) => {
            probe("interrupt taken");
            nontrivial();
        }
        Kind::Instr(w) => {
            probe(
                [
                    "exec BR", "exec ADD", "exec LD", "exec ST", "exec JSR", "exec AND", "exec LDR", "exec STR", "exec RTI", "exec NOT",
                    "exec LDI", "exec STI", "exec JMP", "exec reserved", "exec LEA", "exec TRAP",
                ][(w >> 12) as usize],
            );
        }
        Kind::None => probe("nothing executed"),
    }
    if r.log.vectored.is_some() {
        probe("exception vectored to the OS");
    }
    if let Stop::Err(_) = r.log.stop {
        probe("error reported (virtual traps)");
    }
    if r.log.stop == Stop::Halt {
        probe("virtual halt");
    }
    let op = match r.log.kind {
        Kind::Interrupt(_, p) => 16 + p as u64,
        Kind::Instr(w) => (w >> 12) as u64,
        Kind::None => 31,
    };
    let io = r.log.reads.iter().any(|&a| a >= IO) as u64 | (r.log.writes.iter().any(|w| w.0 >= IO) as u64) << 1;
    state(
        op | (r.log.user_before as u64) << 6
            | (l.m.prio() as u64) << 7
            | io << 10
            | (r.log.vectored.map_or(0, |e| e as u64 + 1)) << 12
            | (stop_name(r.log.stop).len() as u64) << 16
            | (l.m.psr as u64 & 7) << 24
            | (l.m.depth.min(15)) << 28
            | (l.m.real_traps as u64) << 32
            | (l.m.ignore_priv as u64) << 33
            | ((r.pc_before >> 12) as u64) << 34,
    );
}


/// A machine running a generated program under the OS, with handlers for
/// its interrupt lines.
pub struct ProgMachine {
    pub l: Lock,
    pub prog: UserProg,
    /// (line, request, ack port); level-sensitive lines are lowered by a write to the port.
    pub srcs: Vec<(usize, Irq, Option<u16>)>,
    pub input: Vec<u8>,
}
pub fn program_machine(debug_frames: bool, ends: &[End]) -> ProgMachine {
    span(|| {
        let flags = SimFlags {
            strict: false,
            use_real_traps: coin(),
            machine_init: known(pick(&[0u16, 0xFFFF, 0x1234])),
            debug_frames,
            ignore_privilege: chance(1, 8),
        };
        trace(|| format!("machine: {flags:?}"));
        let mut l = Lock::new(flags);
        l.attach_kb();
        l.attach_ds();
        let prog = user_prog(&ProgOpts { input: true, ends: ends.to_vec(), edge: true, ..Default::default() });
        trace(|| prog.dump());
        prog.load(|a, w| l.poke(a, w));
        l.poke(NEST_VECT, NEST_ROUTINE);
        l.poke(NEST_ROUTINE, RTI);
        let mut srcs = vec![];
        for i in 0..below(4) {
            let ack = if coin() { Some(0xFE40 + i as u16) } else { None };
            if let Some(p) = ack {
                l.add_port_dev(&[p]);
            }
            let vect = if chance(1, 4) { pick(&[0u8, 1, 2, 0xFF]) } else { 0x81 + i as u8 };
            let (h, _) = handler(0x1000 + 0x100 * i as u16, ack.map_or(Ack::None, Ack::Port));
            for (k, &w) in h.words.iter().enumerate() {
                l.poke(h.base + k as u16, w);
            }
            l.poke(0x100 + vect as u16, h.base);
            let line = l.add_line();
            if let Some(line) = line {
                srcs.push((line, Irq { vect, prio: below(8) as u8, external: false }, ack));
            }
        }
        let mut input = prog.input.clone();
        input.reverse();
        if chance(1, 3) {
            let p = (below(2) as u16) << 15 | (below(8) as u16) << 8 | 2;
            l.set_psr(p);
        }
        l.set_pc(prog.base);
        ProgMachine { l, prog, srcs, input }
    })
}
impl ProgMachine {
    /// Environment events at one boundary; then one step. Returns the report
    /// and the requests that were pending.
    pub fn step(&mut self) -> (Report, Vec<Irq>) {
        let (r, b) = self.step_with_before();
        (r, b.vect_mem.iter().map(|x| x.0).collect())
    }
    pub fn step_with_before(&mut self) -> (Report, Before) {
        span(|| {
            self.environment();
            let b = before(&self.l, &self.l.pending());
            let r = self.l.step();
            self.acknowledge(&r);
            (r, b)
        })
    }
    /// One step with every request withdrawn.
    pub fn quiet_step(&mut self) -> Report {
        for &(line, ..) in &self.srcs {
            self.l.lines[line].set(None);
        }
        let r = self.l.step();
        self.acknowledge(&r);
        r
    }
    /// What the environment does at one boundary.
    pub fn environment(&mut self) {
        let steps = self.l.steps;
        for (k, &(line, irq, ack)) in self.srcs.iter().enumerate() {
            let up = self.l.lines[line].get().is_some();
            if !up && chance(1, 12) {
                self.l.lines[line].set(Some(irq));
                fault("device interrupt request");
                sched(steps << 8 | k as u64);
            } else if up && ack.is_none() {
                self.l.lines[line].set(None);
            }
        }
        if !self.input.is_empty() && chance(1, 4) {
            let b = self.input.pop().unwrap();
            self.l.type_key(b);
            fault("key typed at a boundary");
            sched(steps << 8 | 0x80);
        }
    }
    /// Any write to its port lowers a level-sensitive line.
    pub fn acknowledge(&mut self, r: &Report) {
        for &(line, _, ack) in &self.srcs {
            if let Some(p) = ack {
                if r.log.writes.iter().any(|w| w.0 == p) {
                    self.l.lines[line].set(None);
                }
            }
        }
    }
    pub fn done(&self, r: &Report) -> bool {
        r.log.stop == Stop::Halt || r.result.is_err() || !self.l.m.mcr
    }
}

const ALL_ENDS: &[End] = &[End::Halt, End::Illegal, End::Format, End::AcvLoad, End::AcvStore, End::AcvFetch, End::Rti];

fn violation_of(r: &Report, c: &str, m: &str) -> Violation {
    Violation {
        class: format!("step:{c}"),
        msg: format!("{m}; step at x{:04X} ({:?}, {})", r.pc_before, r.log.kind, if r.log.user_before { "user" } else { "supervisor" }),
    }
}

pub fn c08() -> Res {
    if chance(1, 4) {
        let mut pm = program_machine(coin(), ALL_ENDS);
        for _ in 0..400 {
            let (r, _) = pm.step();
            if let Some((c, m)) = &r.mismatch {
                return Err(violation_of(&r, c, m));
            }
            observe(&pm.l, &r);
            if pm.done(&r) {
                probe("generated program finished");
                break;
            }
        }
        if let Some((c, m)) = pm.l.compare_memory() {
            return viol(format!("step:{c}"), m);
        }
        return Ok(());
    }
    let mut l = chaos_machine(coin());
    let mx = mix_of(below(5));
    let n = range(1, 160);
    for _ in 0..n {
        let r = span(|| {
            environment(&mut l);
            if !chance(1, 4) {
                place(&mut l, &mx);
            }
            l.step()
        });
        if let Some((c, m)) = &r.mismatch {
            return Err(violation_of(&r, c, m));
        }
        observe(&l, &r);
    }
    if let Some((c, m)) = l.compare_memory() {
        return viol(format!("step:{c}"), m);
    }
    ensure!(l.steps == n, "harness:steps", "steps");
    Ok(())
}

// ---------------------------------------------------------------- C27

fn frames_check(l: &Lock, full: bool) -> Res {
    let depth = l.sim.frame_stack.len();
    ensure!(depth == l.m.depth, "frames:depth", "frame depth is {depth}, calls minus returns is {}", l.m.depth);
    if !l.sim.flags.debug_frames {
        return Ok(());
    }
    let Some(fs) = l.sim.frame_stack.frames() else {
        return viol("frames:absent", "debug frames are on but there is no frame list");
    };
    ensure!(
        fs.len() as u64 == depth && fs.len() == l.m.frames.len(),
        "frames:length",
        "the frame list has {} entries at depth {depth}",
        fs.len()
    );
    let from = if full { 0 } else { fs.len().saturating_sub(2) };
    for (i, (f, w)) in fs.iter().zip(&l.m.frames).enumerate().skip(from) {
        use lc3_ensemble::sim::frame::FrameType;
        let kind_ok = match w.kind {
            FKind::Sub => f.frame_type == FrameType::Subroutine,
            FKind::Trap => f.frame_type == FrameType::Trap || (w.exception && f.frame_type == FrameType::Interrupt),
            FKind::Int => f.frame_type == FrameType::Interrupt,
        };
        ensure!(kind_ok, "frames:kind", "frame {i} is a {:?}, the call was a {:?}", f.frame_type, w.kind);
        ensure!(
            f.caller_addr == w.caller,
            "frames:caller",
            "frame {i} ({:?}) was called from x{:04X}, recorded x{:04X}",
            w.kind,
            w.caller,
            f.caller_addr
        );
        ensure!(f.callee_addr == w.callee, "frames:callee", "frame {i} callee is x{:04X}, recorded x{:04X}", w.callee, f.callee_addr);
        let args: Vec<u16> = f.arguments.iter().map(|a| a.get()).collect();
        ensure!(args == w.args, "frames:args", "frame {i} ({:?} to x{:04X}) has arguments {:04x?}, recorded {args:04x?}", w.kind, w.callee, w.args);
    }
    Ok(())
}

fn define_signatures(l: &mut Lock, at: &[u16]) {
    use lc3_ensemble::sim::frame::ParameterList;
    for _ in 0..below(4) {
        let a = match below(6) {
            0 => pick(&[0x180u16, 0x181, 0x182, 0x183, 0x1FF]),
            1 | 2 => edge_addr(l),
            _ if at.is_empty() => edge_addr(l),
            _ => pick(at),
        };
        // Where an exception's frame is kept is not stated.
        if (0x100..0x103).contains(&a) {
            continue;
        }
        // An interrupt's arguments can only be in registers, and not in the
        // stack pointer, which the entry itself moves.
        let int = (0x100..0x200).contains(&a);
        let n = if chance(1, 12) { range(4, 20) } else { below(4) } as usize;
        let names: Vec<String> = (0..n).map(|i| format!("a{i}")).collect();
        let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
        let sig = if !int && coin() {
            l.sim.frame_stack.set_subroutine_def(a, ParameterList::with_calling_convention(&names[..n]));
            Sig::Cc(n)
        } else {
            let rs: Vec<u8> = (0..n).map(|_| if int { pick(&[0u8, 1, 2, 3, 4, 5, 7]) } else { below(8) as u8 }).collect();
            let ps: Vec<_> = rs.iter().enumerate().map(|(i, &r)| (names[i], REGS[r as usize])).collect();
            l.sim.frame_stack.set_subroutine_def(a, ParameterList::with_pass_by_register(&ps, None));
            Sig::Regs(rs)
        };
        trace(|| format!("signature at x{a:04X}: {sig:?}"));
        l.m.sub_sigs.insert(a, sig);
    }
}

fn resync_frames(l: &mut Lock) {
    // The step itself was wrong (that is C08's business): restart the
    // comparison from the simulator's own state by returning to depth zero.
    l.resync();
    l.m.depth = l.sim.frame_stack.len();
    l.m.frames.clear();
}

/// One judged step for C27. `Ok(false)` ends the run: the step itself
/// disagreed with the ISA, so the history is no longer comparable.
fn frames_step(l: &mut Lock, r: &Report) -> Res<bool> {
    if r.mismatch.is_some() || r.log.unjudged.is_some() {
        probe("runs cut short: the step itself was not comparable");
        resync_frames(l);
        return Ok(false);
    }
    frames_check(l, l.steps % (16 * (1 + l.m.depth / 16)) == 0)?;
    if l.m.depth > 0 {
        nontrivial();
    }
    mix(l.sim.frame_stack.len());
    Ok(true)
}

/// Calls nested past the width of a narrow counter, and back.
fn c27_deep(debug: bool) -> Res {
    let mut pm = program_machine(debug, ALL_ENDS);
    // Zero stands for 65536 calls.
    let n = if chance(1, 60) { pick(&[0u16, 65_534]) } else { range(250, 262) as u16 };
    let m = pick(&[n, n.wrapping_sub(1), n.saturating_add(3), 5]);
    let prog = deep_prog(0x3000, n, m);
    trace(|| format!("{n} calls, then {m} returns: {}", prog.dump()));
    prog.load(|a, w| pm.l.poke(a, w));
    pm.prog = prog;
    pm.l.set_pc(0x3000);
    let subs = pm.prog.subs.clone();
    if n < 1000 {
        span(|| define_signatures(&mut pm.l, &subs));
    }
    // Interrupts for a while only: a run this long would exhaust the tape.
    let busy = below(200);
    let mut top = 0;
    for i in 0..700_000u64 {
        let r = if i < busy { pm.step().0 } else { pm.quiet_step() };
        if !frames_step(&mut pm.l, &r)? {
            return Ok(());
        }
        top = top.max(pm.l.m.depth);
        if pm.done(&r) {
            break;
        }
    }
    if top > 255 {
        probe("more than 255 frames deep");
    }
    if top > 65_535 {
        probe("more than 65535 frames deep");
    }
    state(0xDEE9 << 40 | top << 8 | debug as u64);
    frames_check(&pm.l, true)
}

pub fn c27() -> Res {
    let debug = !chance(1, 4);
    if chance(1, 80) {
        return c27_deep(debug);
    }
    if coin() {
        let mut pm = program_machine(debug, ALL_ENDS);
        let subs = pm.prog.subs.clone();
        span(|| define_signatures(&mut pm.l, &subs));
        for _ in 0..400 {
            let (r, _) = pm.step();
            if !frames_step(&mut pm.l, &r)? {
                return Ok(());
            }
            observe(&pm.l, &r);
            if pm.done(&r) {
                break;
            }
        }
        return frames_check(&pm.l, true);
    }
    let mut l = chaos_machine(debug);
    span(|| define_signatures(&mut l, &[]));
    let mx = mix_of(pick(&[2, 2, 0]));
    for _ in 0..range(1, 160) {
        let r = span(|| {
            environment(&mut l);
            if !chance(1, 4) {
                place(&mut l, &mx);
                if chance(1, 4) {
                    // Aim a call at a subroutine with a signature.
                    let sigs: Vec<u16> = l.m.sub_sigs.keys().copied().collect();
                    if !sigs.is_empty() {
                        let (t, b) = (pick(&sigs), below(7) as usize);
                        l.set_reg(b, t);
                        let pc = l.m.pc;
                        l.poke(pc, 0x4000 | (b as u16) << 6);
                    }
                }
            }
            l.step()
        });
        if !frames_step(&mut l, &r)? {
            return Ok(());
        }
        observe(&l, &r);
    }
    frames_check(&l, true)
}

// ---------------------------------------------------------------- C28

#[derive(Default)]
struct Expected {
    reads: std::collections::BTreeSet<u16>,
    writes: std::collections::BTreeSet<u16>,
    changed: std::collections::BTreeSet<u16>,
}
impl Expected {
    fn add(&mut self, log: &StepLog) {
        self.reads.extend(log.reads.iter().filter(|&&a| a < IO));
        for &(a, old, new) in &log.writes {
            if a < IO {
                self.writes.insert(a);
                if old != new {
                    self.changed.insert(a);
                }
            }
        }
    }
    fn check(&self, l: &mut Lock, what: &str) -> Res {
        // Host accesses through an untracked context leave no mark.
        for _ in 0..below(3) {
            let a = edge_addr(l);
            if a < IO {
                let _ = l.sim.read_mem(a, omni());
                if coin() {
                    let v = edge_word();
                    let _ = l.sim.write_mem(a, lc3_ensemble::sim::mem::Word::new_init(v), omni());
                    l.m.mem[a as usize] = v;
                }
                fault("host access through an untracked context");
            }
        }
        let spot: Vec<u16> = (0..4).map(|_| edge_addr(l)).chain(self.reads.iter().copied()).chain(self.writes.iter().copied()).collect();
        for a in spot {
            if a < IO {
                let s = l.sim.observer.get_mem_accesses(a);
                self.judge(a, s.read(), s.written(), s.modified(), what)?;
                ensure!(
                    s.accessed() == (self.reads.contains(&a) || self.writes.contains(&a)),
                    "observer:accessed",
                    "{what}: accessed() is {} for x{a:04X}",
                    s.accessed()
                );
            }
        }
        let all: Vec<_> = l.sim.observer.take_mem_accesses().collect();
        for &(a, s) in &all {
            if a < IO {
                self.judge(a, s.read(), s.written(), s.modified(), what)?;
            }
        }
        let listed: std::collections::BTreeSet<u16> = all.iter().map(|x| x.0).collect();
        for a in self.reads.iter().chain(&self.writes) {
            ensure!(listed.contains(a), "observer:missing", "{what}: x{a:04X} was accessed but the observer does not list it");
        }
        Ok(())
    }
    fn judge(&self, a: u16, r: bool, w: bool, m: bool, what: &str) -> Res {
        let (er, ew, em) = (self.reads.contains(&a), self.writes.contains(&a), self.changed.contains(&a));
        ensure!(r == er, "observer:read", "{what}: x{a:04X} is marked read={r}, the program {} it", if er { "read" } else { "did not read" });
        ensure!(w == ew, "observer:written", "{what}: x{a:04X} is marked written={w}, the program {} it", if ew { "wrote" } else { "did not write" });
        ensure!(m || !em, "observer:modified", "{what}: x{a:04X} changed value but is not marked modified");
        ensure!(!m || ew, "observer:modified-unwritten", "{what}: x{a:04X} is marked modified but was not written");
        Ok(())
    }
}

/// The observer of a strict machine, which may stop a step half-way.
fn c28_strict() -> Res {
    let mut l = chaos_machine(coin());
    let flags = SimFlags { strict: true, ..l.sim.flags };
    l.make_mirror(flags);
    let mx = mix_of(pick(&[0, 1, 2, 4]));
    for _ in 0..range(1, 60) {
        let go = span(|| -> Res<bool> {
            environment(&mut l);
            if !chance(1, 5) {
                place(&mut l, &mx);
            }
            if chance(1, 2) {
                if coin() {
                    l.uninit_reg(below(8) as usize);
                } else {
                    let a = edge_addr(&l);
                    l.uninit(a);
                }
                fault("word becomes uninitialised");
            }
            let x = l.mirror.as_mut().expect("mirror");
            let rb = x.sim.step_in();
            let name = err_name(&rb);
            let r = l.step();
            if r.mismatch.is_some() || r.log.unjudged.is_some() {
                probe("runs cut short: the step itself was not comparable");
                return Ok(false);
            }
            let mut e = Expected::default();
            e.add(&r.log);
            let x = l.mirror.as_mut().expect("mirror");
            let marks: Vec<_> = x.sim.observer.take_mem_accesses().filter(|m| m.0 < IO).collect();
            let at = format!("strict step at x{:04X} ({:?}, {name})", r.pc_before, r.log.kind);
            if !name.starts_with("Strict") {
                for &(a, s) in &marks {
                    e.judge(a, s.read(), s.written(), s.modified(), &at)?;
                }
                for a in e.reads.iter().chain(&e.writes) {
                    ensure!(marks.iter().any(|m| m.0 == *a), "observer:missing", "{at}: x{a:04X} was accessed but the observer does not list it");
                }
                return Ok(true);
            }
            probe("steps rejected by strict mode");
            nontrivial();
            for &(a, s) in &marks {
                let new = r.log.writes.iter().rev().find(|w| w.0 == a);
                ensure!(!s.read() || e.reads.contains(&a), "observer:read", "{at}: x{a:04X} is marked read, the program did not read it");
                if s.written() {
                    let Some(&(_, _, new)) = new else {
                        return viol("observer:written", format!("{at}: x{a:04X} is marked written, the program did not write it"));
                    };
                    let has = x.sim.mem[a].get();
                    ensure!(has == new, "observer:written", "{at}: x{a:04X} is marked written, but it still holds x{has:04X} (not x{new:04X})");
                }
                ensure!(!s.modified() || s.written(), "observer:modified-unwritten", "{at}: x{a:04X} is marked modified but was not written");
            }
            for &(a, old, new) in &r.log.writes {
                if a < IO && old != new && x.sim.mem[a].get() == new {
                    let ok = marks.iter().any(|m| m.0 == a && m.1.written() && m.1.modified());
                    ensure!(ok, "observer:modified", "{at}: x{a:04X} changed value but is not marked modified");
                }
            }
            l.copy_to_mirror();
            Ok(true)
        })?;
        if !go {
            break;
        }
    }
    Ok(())
}

pub fn c28() -> Res {
    if chance(1, 5) {
        return c28_strict();
    }
    let prog_mode = chance(1, 3);
    let mut pm = if prog_mode { Some(program_machine(coin(), ALL_ENDS)) } else { None };
    let mut chaos = if prog_mode { None } else { Some(chaos_machine(coin())) };
    let mx = mix_of(below(5));
    for _ in 0..range(1, if prog_mode { 120 } else { 90 }) {
        let segment = chance(1, 4);
        if segment {
            let l = match (&mut pm, &mut chaos) {
                (Some(p), _) => &mut p.l,
                (_, Some(c)) => c,
                _ => unreachable!(),
            };
            let k = range(1, 24);
            if !prog_mode {
                span(|| {
                    environment(l);
                    place(l, &mx)
                });
            }
            let (logs, ok) = l.run_segment(k);
            if !ok {
                probe("runs cut short: the step itself was not comparable");
                return Ok(());
            }
            let mut e = Expected::default();
            logs.iter().for_each(|x| e.add(x));
            probe("run segments checked");
            e.check(l, &format!("run of {} steps", logs.len()))?;
            if prog_mode && (logs.last().is_none_or(|x| x.stop != Stop::Ok) || !l.m.mcr) {
                return Ok(());
            }
            continue;
        }
        let (r, l, done) = match (&mut pm, &mut chaos) {
            (Some(p), _) => {
                let (r, _) = p.step();
                let d = p.done(&r);
                (r, &mut p.l, d)
            }
            (_, Some(l)) => (
                span(|| {
                    environment(l);
                    if !chance(1, 4) {
                        place(l, &mx);
                    }
                    l.step()
                }),
                l,
                false,
            ),
            _ => unreachable!(),
        };
        if r.mismatch.is_some() || r.log.unjudged.is_some() {
            probe("runs cut short: the step itself was not comparable");
            l.resync();
            if r.mismatch.is_some() {
                return Ok(());
            }
            continue;
        }
        let mut e = Expected::default();
        e.add(&r.log);
        span(|| e.check(l, &format!("step at x{:04X} ({:?})", r.pc_before, r.log.kind)))?;
        if !e.writes.is_empty() {
            nontrivial();
        }
        observe(l, &r);
        if done {
            break;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C10

pub struct Before {
    pub pc: u16,
    pub r6: u16,
    pub psr: u16,
    pub ssp: u16,
    pub vect_mem: Vec<(Irq, u16)>,
}
pub fn before(l: &Lock, pending: &[Irq]) -> Before {
    Before {
        pc: l.m.pc,
        r6: l.m.r[6],
        psr: l.m.psr,
        ssp: if l.m.user() { l.m.saved_sp } else { l.m.r[6] },
        vect_mem: pending.iter().map(|&i| (i, l.m.mem[0x100 + i.vect as usize])).collect(),
    }
}
/// Judges only what C10 says about interrupt entry and gating.
pub fn judge_interrupt(l: &mut Lock, b: &Before, r: &Report) -> Res {
    if r.log.unjudged.is_some() || b.vect_mem.iter().any(|(i, _)| i.external) {
        return Ok(());
    }
    // An entry that overwrites its own vector or writes device registers.
    if (1..=2).any(|k| (0x100..0x200).contains(&b.ssp.wrapping_sub(k)) || b.ssp.wrapping_sub(k) >= IO) {
        return Ok(());
    }
    let cur = (b.psr >> 8 & 7) as u8;
    let top = b.vect_mem.iter().map(|(i, _)| i.prio).max();
    match top {
        Some(p) if p > cur => {
            probe("interrupt entries judged");
            nontrivial();
            ensure!(r.result.is_ok(), "gate:error", "a pending interrupt of priority {p} ended in {}", err_name(&r.result));
            let psr = l.sim.psr().get();
            let took = b.vect_mem.iter().any(|(i, t)| i.prio == p && *t == l.sim.pc);
            ensure!(
                took,
                "gate:not-taken",
                "priority {p} is pending over priority {cur}, but the machine went to x{:04X} (vectors {:04x?})",
                l.sim.pc,
                b.vect_mem
            );
            ensure!(psr & 0x8000 == 0, "gate:mode", "interrupt entry left the machine in user mode");
            ensure!((psr >> 8 & 7) as u8 == p, "gate:priority", "interrupt entry at priority {p} set priority {}", psr >> 8 & 7);
            let sp = l.sim.reg_file[REGS[6]].get();
            ensure!(sp == b.ssp.wrapping_sub(2), "gate:sp", "interrupt entry set R6 to x{sp:04X}; the supervisor stack was at x{:04X}", b.ssp);
            if sp.wrapping_add(2) <= IO && sp < IO && sp < 0xFDFE {
                let (pc, ps) = (l.sim.mem[sp].get(), l.sim.mem[sp + 1].get());
                ensure!(pc == b.pc, "gate:saved-pc", "saved PC is x{pc:04X}, interrupted at x{:04X}", b.pc);
                ensure!((ps ^ b.psr) & 0x8707 == 0, "gate:saved-psr", "saved PSR is x{ps:04X}, was x{:04X}", b.psr);
            }
            if let Some((c, m)) = &r.mismatch {
                ensure!(*c == "psr", format!("gate:entry-{c}"), "interrupt entry: {m}");
            }
        }
        Some(p) => {
            probe("requests held back by priority");
            // Not allowed now: did the machine enter a handler regardless?
            if r.mismatch.is_some() {
                let sp = l.sim.reg_file[REGS[6]].get();
                let looks = b.vect_mem.iter().any(|(_, t)| *t == l.sim.pc)
                    && l.sim.psr().get() & 0x8000 == 0
                    && sp == b.ssp.wrapping_sub(2)
                    && l.sim.mem[sp].get() == b.pc;
                ensure!(!looks, "gate:taken-too-low", "an interrupt of priority {p} was taken at priority {cur}");
            }
        }
        None => {}
    }
    Ok(())
}

/// What RTI must bring back for the interrupted program to go on unchanged.
pub fn judge_return(l: &mut Lock, b: &Before, r: &Report) -> Res {
    let log = &r.log;
    if b.r6 >= IO - 2 {
        return Ok(());
    }
    if r.mismatch.is_none() || log.unjudged.is_some() || log.kind != Kind::Instr(0x8000) || log.stop != Stop::Ok || log.vectored.is_some() {
        return Ok(());
    }
    if r.result.is_err() || l.m.mem[b.r6.wrapping_add(1) as usize] & 0x78F8 != 0 || (l.m.mem[b.r6.wrapping_add(1) as usize] & 7).count_ones() != 1 {
        return Ok(());
    }
    let (psr, want) = (l.sim.psr().get() & 0x8707, l.m.psr & 0x8707);
    ensure!(psr == want, "return:psr", "RTI at x{:04X} brought back PSR x{psr:04X}, saved was x{want:04X}", b.pc);
    ensure!(l.sim.pc == l.m.pc, "return:pc", "RTI at x{:04X} went to x{:04X}, saved was x{:04X}", b.pc, l.sim.pc, l.m.pc);
    let sp = l.sim.reg_file[REGS[6]].get();
    ensure!(sp == l.m.r[6], "return:sp", "RTI at x{:04X} left R6 at x{sp:04X}, expected x{:04X}", b.pc, l.m.r[6]);
    Ok(())
}

/// Requests made from inside a deep recursion.
fn c10_deep() -> Res {
    let mut pm = program_machine(coin(), ALL_ENDS);
    let n = range(20, 330) as u16;
    let m = pick(&[n, n.saturating_add(3), n / 2]);
    let prog = deep_prog(0x3000, n, m);
    trace(|| format!("{n} calls, then {m} returns: {}", prog.dump()));
    prog.load(|a, w| pm.l.poke(a, w));
    pm.prog = prog;
    pm.l.set_pc(0x3000);
    // The requests come somewhere in the descent or the way back.
    let from = below(6 * n as u64);
    let noise = range(10, 200);
    let mut top = 0;
    for i in 0..(8 * n as u64 + 4000) {
        if i < from || i > from + noise {
            let r = pm.quiet_step();
            if r.mismatch.is_some() {
                probe("runs cut short: the step itself was not comparable");
                return Ok(());
            }
            if pm.done(&r) {
                break;
            }
            continue;
        }
        let (r, b) = pm.step_with_before();
        judge_interrupt(&mut pm.l, &b, &r)?;
        judge_return(&mut pm.l, &b, &r)?;
        if r.mismatch.is_some() {
            pm.l.resync();
            continue;
        }
        observe(&pm.l, &r);
        top = top.max(pm.l.m.depth);
        if pm.done(&r) {
            break;
        }
    }
    if top > 200 {
        probe("requests more than 200 frames deep");
    }
    Ok(())
}

pub fn c10_gating() -> Res {
    if chance(1, 50) {
        return c10_deep();
    }
    if coin() {
        let mut pm = program_machine(coin(), ALL_ENDS);
        for _ in 0..300 {
            let r = span(|| -> Res<Option<Report>> {
                // The requests of this boundary are known before the step.
                let (r, b) = pm.step_with_before();
                judge_interrupt(&mut pm.l, &b, &r)?;
                judge_return(&mut pm.l, &b, &r)?;
                if r.mismatch.is_some() {
                    pm.l.resync();
                    return Ok(None);
                }
                Ok(Some(r))
            })?;
            let Some(r) = r else { continue };
            observe(&pm.l, &r);
            if pm.done(&r) {
                break;
            }
        }
        return Ok(());
    }
    let mut l = chaos_machine(coin());
    if l.lines.is_empty() {
        l.add_line();
    }
    let mx = mix_of(pick(&[4, 0, 2]));
    for _ in 0..range(1, 120) {
        let (r, b) = span(|| {
            environment(&mut l);
            if !chance(1, 4) {
                place(&mut l, &mx);
            }
            let p = l.pending();
            let b = before(&l, &p);
            (l.step(), b)
        });
        judge_interrupt(&mut l, &b, &r)?;
        judge_return(&mut l, &b, &r)?;
        if r.mismatch.is_some() {
            l.resync();
        } else {
            observe(&l, &r);
        }
    }
    Ok(())
}
