//! C09: adversarial user-mode code against the privilege boundary.
use super::step::*;
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::lock::*;
use crate::model::*;
use lc3_ensemble::sim::device::ExternalDevice;
use std::sync::atomic::Ordering::Relaxed;

/// What a user-mode step attempts, from the state before it: computed from
/// the instruction word alone, without the machine model.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Attempt {
    Fine,
    /// Access outside user space (the target, and what kind of access).
    Acv(u16, &'static str),
    Rti,
    /// Not an instruction: reported as such, nothing accessed.
    Bad,
}
fn user_space(a: u16) -> bool {
    (0x3000..=0xFDFF).contains(&a)
}
fn attempt(l: &Lock) -> Attempt {
    let pc = l.sim.pc;
    let mem = |a: u16| l.sim.mem[a].get();
    if !user_space(pc) {
        return Attempt::Acv(pc, "fetch");
    }
    let w = mem(pc);
    let next = pc.wrapping_add(1);
    let off9 = next.wrapping_add(sext(w & 0x1FF, 9));
    let based = l.sim.reg_file[REGS[(w >> 6 & 7) as usize]].get().wrapping_add(sext(w & 0x3F, 6));
    let chk = |a: u16, k| if user_space(a) { Attempt::Fine } else { Attempt::Acv(a, k) };
    match w >> 12 {
        2 => chk(off9, "read"),
        3 => chk(off9, "write"),
        6 => chk(based, "read"),
        7 => chk(based, "write"),
        0xA | 0xB => match chk(off9, "pointer read") {
            Attempt::Fine => chk(mem(off9), if w >> 12 == 0xA { "read" } else { "write" }),
            x => x,
        },
        8 if w == 0x8000 => Attempt::Rti,
        8 | 0xD => Attempt::Bad,
        1 | 5 if w & 0x20 == 0 && w & 0x18 != 0 => Attempt::Bad,
        4 if w & 0x800 == 0 && w & 0xE3F != 0 => Attempt::Bad,
        9 if w & 0x3F != 0x3F => Attempt::Bad,
        0xC if w & 0xE3F != 0 => Attempt::Bad,
        0xF if w & 0xF00 != 0 => Attempt::Bad,
        _ => Attempt::Fine,
    }
}

struct Pre {
    what: Attempt,
    op: u16,
    trap_to: u16,
    exc: [u16; 3],
    regs: [u16; 8],
    ssp: u16,
    psr: u16,
    system: Vec<u16>,
    kb: Vec<u8>,
    ds: usize,
    ie: Option<u16>,
    irq: Option<u8>,
    external: bool,
}
fn system_mem(l: &Lock) -> Vec<u16> {
    (0..0x3000u16).chain(0xFE00..=0xFFFF).map(|a| l.sim.mem[a].get()).collect()
}
fn ie(l: &mut Lock) -> Option<u16> {
    l.sim.device_handler.io_read(0xFE00, false).map(|v| v & 0x4000)
}
fn pre(l: &mut Lock) -> Pre {
    let w = if user_space(l.sim.pc) { l.sim.mem[l.sim.pc].get() } else { 0 };
    let p = l.pending();
    let (ien, ssp) = (ie(l), l.saved_sp());
    Pre {
        what: attempt(l),
        op: w >> 12,
        trap_to: l.sim.mem[w & 0xFF].get(),
        exc: [0x100, 0x101, 0x102].map(|a: u16| l.sim.mem[a].get()),
        regs: std::array::from_fn(|i| l.sim.reg_file[REGS[i]].get()),
        ssp,
        psr: l.sim.psr().get(),
        system: system_mem(l),
        kb: l.kbuf.read().unwrap().iter().copied().collect(),
        ds: l.dbuf.read().unwrap().len(),
        ie: ien,
        irq: p.iter().filter(|i| !i.external).map(|i| i.prio).max(),
        external: p.iter().any(|i| i.external),
    }
}

fn judge(l: &mut Lock, p: &Pre, r: &Report, io_events: usize) -> Res {
    let at = format!("{:?} by the step at x{:04X}", p.what, r.pc_before);
    let psr = l.sim.psr().get();
    let entered = psr & 0x8000 == 0;
    let took_irq = p.irq.is_some_and(|q| q > (p.psr >> 8 & 7) as u8);
    let (s1, s2) = (p.ssp.wrapping_sub(1), p.ssp.wrapping_sub(2));
    let stack_io = s1 >= IO || s2 >= IO || (0x100..0x103).contains(&s1) || (0x100..0x103).contains(&s2) || s1 < 0x100 || s2 < 0x100;
    if p.external {
        return Ok(());
    }
    if took_irq {
        // Interrupt entry is C10's subject; the boundary still holds.
        return Ok(());
    }
    // An entry whose stack lies on device registers or vectors writes those
    // on the machine's own behalf.
    if stack_io && (l.m.real_traps || p.op == 0xF) {
        return Ok(());
    }
    // What the step may have changed outside user space.
    let now = system_mem(l);
    for (i, (&o, &n)) in p.system.iter().zip(&now).enumerate() {
        let a = if i < 0x3000 { i as u16 } else { (i - 0x3000) as u16 + IO };
        if o != n && a != SSP_PORT {
            ensure!(
                entered && (a == s1 || a == s2),
                "user:system-memory",
                "{at} changed x{a:04X} outside user space from x{o:04X} to x{n:04X}"
            );
        }
    }
    if !(entered && stack_io) {
        ensure!(io_events == 0, "user:device", "{at} reached a device ({io_events} accesses)");
        let kb: Vec<u8> = l.kbuf.read().unwrap().iter().copied().collect();
        ensure!(kb == p.kb, "user:keyboard", "{at} changed the keyboard queue");
        ensure!(l.dbuf.read().unwrap().len() == p.ds, "user:display", "{at} changed the display");
        ensure!(ie(l) == p.ie, "user:kbsr", "{at} changed the keyboard's interrupt enable");
        ensure!(l.sim.mcr().load(Relaxed), "user:mcr", "{at} cleared the MCR");
        if !entered {
            ensure!((psr ^ p.psr) & 0x0700 == 0, "user:priority", "{at} changed the priority: PSR x{psr:04X}, was x{:04X}", p.psr);
            let ssp = l.saved_sp();
            ensure!(ssp == p.ssp, "user:saved-sp", "{at} changed the saved stack pointer");
        }
    }
    let regs: [u16; 8] = std::array::from_fn(|i| l.sim.reg_file[REGS[i]].get());
    let expect = |l: &Lock, name: &str, k: usize| -> Res {
        if l.m.real_traps {
            ensure!(r.result.is_ok() && entered, "user:not-reported", "{at} was not vectored to the OS ({}, PSR x{psr:04X})", err_name(&r.result));
            if !stack_io {
                ensure!(l.sim.pc == p.exc[k], "user:wrong-vector", "{at} went to x{:04X}, the handler is at x{:04X}", l.sim.pc, p.exc[k]);
                let (pc, ps) = (l.sim.mem[s2].get(), l.sim.mem[s1].get());
                ensure!(pc == r.pc_before || pc == r.pc_before.wrapping_add(1), "user:wrong-return", "{at}: saved PC is x{pc:04X}");
                ensure!(ps & 0x8000 != 0, "user:wrong-return", "{at}: saved PSR is x{ps:04X}");
            }
        } else {
            ensure!(err_name(&r.result) == name, "user:not-reported", "{at} was reported as {}", err_name(&r.result));
            ensure!(!entered, "user:escalated", "{at} left the machine in supervisor mode");
        }
        for i in 0..8 {
            let want = if i == 6 && l.m.real_traps { s2 } else { p.regs[i] };
            ensure!(regs[i] == want, "user:register", "{at} changed R{i} to x{:04X}", regs[i]);
        }
        Ok(())
    };
    match p.what {
        Attempt::Acv(_, k) => {
            nontrivial();
            probe(match k {
                "fetch" => "forbidden fetch",
                "read" => "forbidden read",
                "write" => "forbidden write",
                _ => "forbidden pointer read",
            });
            expect(l, "AccessViolation", 2)
        }
        Attempt::Rti => {
            nontrivial();
            probe("RTI in user mode");
            expect(l, "PrivilegeViolation", 0)
        }
        Attempt::Bad => {
            if entered && !stack_io {
                ensure!(l.m.real_traps && l.sim.pc == p.exc[1], "user:escalated", "{at} entered supervisor mode at x{:04X}", l.sim.pc);
            }
            Ok(())
        }
        Attempt::Fine => {
            if p.op == 0xF {
                if entered && !stack_io {
                    ensure!(l.sim.pc == p.trap_to, "user:escalated", "a trap entered supervisor mode at x{:04X}, its vector is x{:04X}", l.sim.pc, p.trap_to);
                }
            } else {
                ensure!(!entered, "user:escalated", "{at} entered supervisor mode without a trap");
                ensure!(r.result.is_ok(), "user:false-report", "{at} stays inside user space but was reported as {}", err_name(&r.result));
                probe("permitted user step");
            }
            Ok(())
        }
    }
}

pub fn c09() -> Res {
    let mut l = chaos_machine(coin());
    l.m.ignore_priv = false;
    l.sim.flags.ignore_privilege = false;
    if chance(1, 5) {
        // Strict mode on a machine that is fully initialised.
        l.sim.flags.strict = true;
        for a in 0..=0xFFFFu16 {
            let v = l.sim.mem[a].get();
            l.sim.mem[a].set(v);
        }
        probe("strict machines");
    }
    let mx = Mix { alu: 1, mem: 10, flow: 3, trap: 2, rti: 2, bad: 1, raw: 2 };
    for _ in 0..range(1, 100) {
        span(|| -> Res {
            environment(&mut l);
            if !l.m.user() && chance(5, 6) {
                // Drop to user code, as an OS returning to its program would.
                let v = psr_value() | 0x8000;
                l.set_psr(v);
                let (a, b) = (l.m.r[6], l.m.saved_sp);
                l.set_reg(6, if coin() { 0xFD00 } else { b });
                l.set_saved_sp(if (0x300..0x3001).contains(&a) { a } else { 0x3000 });
                if !user_space(l.m.pc) || coin() {
                    let pc = if coin() { 0x3000 + below(64) as u16 } else { edge_addr(&l) };
                    l.set_pc(pc);
                }
            }
            if !chance(1, 5) {
                place(&mut l, &mx);
            }
            if !l.m.user() {
                let r = l.step();
                if r.mismatch.is_some() {
                    l.resync();
                }
                return Ok(());
            }
            l.sim.mcr().store(true, Relaxed);
            let p = pre(&mut l);
            l.log.lock().unwrap().clear();
            let r = l.step();
            let n = l.last_io;
            mix(l.sim.pc as u64 | (l.sim.psr().get() as u64) << 16);
            state(match p.what {
                Attempt::Acv(a, k) => (a as u64) << 8 | k.len() as u64,
                Attempt::Rti => 1,
                Attempt::Bad => 2,
                Attempt::Fine => 3,
            } | (p.op as u64) << 32);
            judge(&mut l, &p, &r, n)?;
            if r.mismatch.is_some() || r.log.unjudged.is_some() {
                l.resync();
            }
            Ok(())
        })?;
    }
    Ok(())
}
