//! C11: contracts of the OS trap routines. C12: real versus virtual traps.
use super::contention::{drive, Other};
use super::rig::*;
use super::transp::LevelDev;
use crate::ctx::*;
use crate::ensure;
use crate::lock::known;
use crate::prog::*;
use lc3_ensemble::sim::device::ExternalDevice;
use lc3_ensemble::sim::SimFlags;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;

pub const PROMPT: &[u8] = b"Input character: ";

/// Interrupt sources with register-preserving handlers, at x1000-x12FF.
pub fn add_sources(g: &mut Rig, max: u64) {
    for i in 0..below(max + 1) {
        let (a, _) = handler(0x1000 + 0x100 * i as u16, Ack::Port(0xFE40 + i as u16));
        g.poke_all(a.base, &a.words);
        let vect = 0x81 + i as u8;
        g.poke(0x100 + vect as u16, a.base);
        g.poke(NEST_VECT, NEST_ROUTINE);
        g.poke(NEST_ROUTINE, RTI);
        let d = LevelDev {
            up: Arc::default(),
            budget: range(1, 8),
            rate: pick(&[2u64, 5, 20, 80]),
            vect,
            prio: below(8) as u8,
            raised: Arc::default(),
            polls: 0,
            id: i,
        };
        let _ = g.sim.device_handler.add_device(d, &[0xFE40 + i as u16]);
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum T {
    Getc,
    Out,
    Puts,
    In,
    Putsp,
    Halt,
}

/// A word whose low byte is what is printed.
fn chr() -> u16 {
    match below(6) {
        0 => pick(&[1u16, 0xFF, 0x80, 0x7F, 0x0A, 0x100, 0xFF00, 0x8000, 0xFFFF]),
        1 => 1 + below(0xFFFF) as u16,
        _ => 1 + below(255) as u16,
    }
}
/// Two packed characters; a zero byte ends the string.
fn packed() -> u16 {
    let b = || if chance(1, 8) { pick(&[1u16, 0x80, 0xFF, 0x7F]) } else { 1 + below(255) as u16 };
    b() | b() << 8
}

pub fn c11() -> Res {
    let real = coin();
    let flags = SimFlags {
        strict: false,
        use_real_traps: real,
        machine_init: known(pick(&[0u16, 0xFFFF, 0x4141])),
        debug_frames: coin(),
        ignore_privilege: chance(1, 6),
    };
    let mut g = Rig::new(flags);
    add_sources(&mut g, 2);
    let user = !chance(1, 4);
    let code = if coin() { 0x3000 } else { range(0x3000, 0xFDF0) as u16 };
    let sstack = if coin() { 0x3000 } else { range(0x1800, 0x3000) as u16 };
    let other_sp = if coin() { 0xFD00 } else { word() };
    let prio = if coin() { 0 } else { below(8) as u16 };
    g.set_ssp(if user { sstack } else { other_sp });
    g.set_reg(6, if user { other_sp } else { sstack });
    if prio >= 4 && coin() {
        // Enabled, but the priority keeps it from being taken.
        let _ = g.sim.write_mem(0xFE00, lc3_ensemble::sim::mem::Word::new_init(0x4000), crate::lock::omni());
        fault("keyboard interrupt enabled and masked");
    }
    let n = range(1, 4);
    let list: Vec<T> = (0..n)
        .map(|i| match weighted(&[4, 4, 5, 4, 5, if i + 1 == n { 3 } else { 0 }]) {
            0 => T::Getc,
            1 => T::Out,
            2 => T::Puts,
            3 => T::In,
            4 => T::Putsp,
            _ => T::Halt,
        })
        .collect();
    for (i, t) in list.iter().enumerate() {
        let w = match t {
            T::Getc => GETC,
            T::Out => OUT,
            T::Puts => PUTS,
            T::In => IN,
            T::Putsp => PUTSP,
            T::Halt => HALT,
        };
        g.poke(code + i as u16, w);
    }
    let reads = list.iter().filter(|t| matches!(t, T::Getc | T::In)).count();
    let input: Vec<u8> = (0..reads as u64 + below(3)).map(|_| if coin() { below(256) as u8 } else { pick(&[0u8, 0xFF, 0x80, b'x']) }).collect();
    trace(|| format!("{flags:?} user={user} priority={prio} code x{code:04X} {list:?} supervisor stack x{sstack:04X} input {input:02x?}"));
    let (kbuf, dbuf) = (g.kbuf.clone(), g.dbuf.clone());
    let hostile = coin();
    let mut o = Other::new(&kbuf, &dbuf, &input, hostile);
    if coin() {
        while let Some(b) = o.to_type.pop_front() {
            kbuf.write().unwrap().push_back(b);
        }
    }
    let mut expect: Vec<u8> = vec![];
    let mut used = 0;
    g.sim.pc = code;
    for (i, &t) in list.iter().enumerate() {
        // The caller's state at the trap.
        for r in [0, 1, 2, 3, 4, 5, 7] {
            g.set_reg(r, word());
        }
        let cc = pick(&[1u16, 2, 4]);
        g.set_psr((!user as u16 ^ 1) << 15 | prio << 8 | cc);
        let mut out: Vec<u8> = vec![];
        match t {
            T::Out => {
                let v = word();
                g.set_reg(0, v);
                out.push(v as u8);
            }
            T::Puts | T::Putsp => {
                let len = if chance(1, 20) { 40 + below(60) } else { below(12) };
                let mut ws: Vec<u16> = vec![];
                if t == T::Puts {
                    ws.extend((0..len).map(|_| chr()));
                    out.extend(ws.iter().map(|&w| w as u8));
                    ws.push(0);
                } else {
                    for _ in 0..len {
                        ws.push(packed());
                    }
                    out.extend(ws.iter().flat_map(|&w| [w as u8, (w >> 8) as u8]));
                    match below(3) {
                        0 => ws.push(0),
                        // Ends in the middle of a word...
                        1 => {
                            let w = packed() & 0xFF;
                            ws.push(w);
                            out.push(w as u8);
                        }
                        // ... or at its low byte, with something above it.
                        _ => ws.push(packed() & 0xFF00),
                    }
                }
                let hi = 0xFE00 - ws.len() as u64;
                let mut at = match below(4) {
                    0 => hi as u16,
                    1 => 0x3100,
                    2 => range(0x3000, hi) as u16,
                    _ => range(0x1400, 0x1500) as u16,
                };
                if at < code + 8 && at as u64 + ws.len() as u64 >= code as u64 {
                    at = if code < 0x8000 { 0x9000 } else { 0x4000 };
                }
                g.poke_all(at, &ws);
                g.set_reg(0, at);
            }
            T::In => {
                out.extend(PROMPT);
                out.push(input[used]);
            }
            _ => {}
        }
        let before = g.snap();
        let ret = code + i as u16 + 1;
        let depth = g.sim.frame_stack.len();
        let mode = if t == T::Halt { pick(&[0u64, 2]) } else { below(3) };
        // Instructions between two of the other thread's boundaries.
        let stride = if mode < 2 {
            1
        } else if hostile {
            3
        } else {
            40
        };
        let budget = (o.calm_after.saturating_sub(o.at) + input.len() as u64) * stride + 3000 + 400 * (out.len() as u64 + 2);
        let mut left = budget;
        let mut halted = false;
        loop {
            if left == 0 || (t != T::Halt && g.sim.pc == ret && g.sim.frame_stack.len() == depth) {
                break;
            }
            let r = match mode {
                0 => {
                    let mut first = true;
                    g.sim.run_while(|s| {
                        let go = left > 0 && (first || !(s.pc == ret && s.frame_stack.len() == depth) || t == T::Halt);
                        first = false;
                        if go {
                            o.boundary();
                            left -= 1;
                        }
                        go
                    })
                }
                1 => {
                    o.boundary();
                    left -= 1;
                    g.sim.mcr().store(true, Relaxed);
                    g.sim.step_in()
                }
                _ => {
                    o.boundary();
                    let k = range(1, stride);
                    let mut k = k.min(left);
                    left -= k;
                    g.sim.run_while(|s| {
                        k = k.wrapping_sub(1);
                        k != u64::MAX && (t == T::Halt || !(s.pc == ret && s.frame_stack.len() == depth))
                    })
                }
            };
            ensure!(r.is_ok(), "os:error", "{t:?} ended in {:?}", r);
            if mode != 1 && g.sim.hit_halt() {
                halted = true;
                break;
            }
        }
        tick(budget - left);
        expect.extend(&out);
        let ctx = format!("{t:?} (call {i}, {} mode)", if user { "user" } else { "supervisor" });
        // The other thread lets go, and each device is asked once more.
        o.release();
        g.sim.device_handler.io_read(0xFE00, false);
        g.sim.device_handler.io_read(0xFE04, false);
        let after = g.snap();
        let mut shown = o.drained.clone();
        shown.extend(&after.out);
        if matches!(t, T::Getc | T::In) {
            used += 1;
        }
        if t == T::Halt {
            ensure!(halted, "os:halt", "{ctx}: the machine has not stopped after {budget} instructions");
        } else {
            ensure!(!halted, "os:stopped", "{ctx}: the machine stopped");
            ensure!(left > 0, "os:stuck", "{ctx}: has not returned after {budget} instructions (PC x{:04X})", g.sim.pc);
            let from = if matches!(t, T::Getc | T::In) { 1 } else { 0 };
            for r in from..8 {
                ensure!(before.r[r] == after.r[r], "os:reg", "{ctx}: R{r} was x{:04X}, is x{:04X} on return", before.r[r], after.r[r]);
            }
            ensure!(
                (before.psr ^ after.psr) & 0x8007 == 0,
                "os:psr",
                "{ctx}: PSR was x{:04X}, is x{:04X} on return",
                before.psr,
                after.psr
            );
            if from == 1 {
                let want = input[used - 1] as u16;
                ensure!(after.r[0] == want, "os:input", "{ctx}: returned x{:04X}, the next byte was x{want:02X}", after.r[0]);
            }
        }
        if let Some(a) = (0x3000..0xFE00).find(|&a| before.mem[a] != after.mem[a]) {
            return viol("os:mem", format!("{ctx}: mem[x{a:04X}] was x{:04X}, is x{:04X}", before.mem[a], after.mem[a]));
        }
        ensure!(shown == expect, "os:output", "{ctx}: displayed {shown:02x?}, expected {expect:02x?}");
        let rest: Vec<u8> = after.left.iter().copied().chain(o.to_type.iter().copied()).collect();
        ensure!(rest == input[used..], "os:consumed", "{ctx}: unread input is {rest:02x?}, expected {:02x?}", &input[used..]);
        state((t as u64) << 1 | user as u64 | (real as u64) << 4 | out.len().min(63) as u64 * 32 | mode << 12 | (prio as u64) << 16);
        probe(["GETC", "OUT", "PUTS", "IN", "PUTSP", "HALT"][t as usize]);
        mix(after.hash());
        mix(o.at);
    }
    nontrivial();
    Ok(())
}

fn message(e: &str) -> Option<&'static str> {
    match e {
        "PrivilegeViolation" => Some("\n--- Privilege violation ---"),
        "IllegalOpcode" | "InvalidInstrFormat" => Some("\n--- Illegal opcode ---"),
        "AccessViolation" => Some("\n--- Access violation ---"),
        _ => None,
    }
}

pub fn c12() -> Res {
    let flags = SimFlags {
        strict: false,
        use_real_traps: false,
        machine_init: known(pick(&[0u16, 0xFFFF, 0x1234])),
        debug_frames: coin(),
        ignore_privilege: false,
    };
    let prog = user_prog(&ProgOpts {
        input: coin(),
        ends: vec![
            End::Halt,
            End::Halt,
            End::Halt,
            End::Illegal,
            End::Format,
            End::AcvLoad,
            End::AcvStore,
            End::AcvFetch,
            End::Rti,
            End::BadTrap,
        ],
        stack: pick(&[0xFD00u16, 0x8000, 0xFE00]),
        base: 0x3000,
        edge: true,
        ..Default::default()
    });
    let prio = if coin() { 0 } else { below(8) as u16 };
    let ssp = if coin() { 0x3000 } else { range(0x1800, 0x3000) as u16 };
    let cc = pick(&[2u16, 1, 4]);
    trace(|| format!("{flags:?} priority {prio} ssp x{ssp:04X}"));
    trace(|| prog.dump());
    let noisy = coin();
    let hostile = noisy && coin();
    let one = |real: bool, quiet: bool| -> Res<Option<(Ending, Snap)>> {
        let mut g = Rig::new(SimFlags { use_real_traps: real, ..flags });
        prog.load(|a, w| g.poke(a, w));
        g.set_psr(0x8000 | prio << 8 | cc);
        g.set_reg(6, 0xFD00);
        g.set_ssp(ssp);
        g.sim.pc = prog.base;
        if quiet {
            g.type_keys(&prog.input);
            let mode = below(2);
            let e = g.finish(mode, 60_000);
            let s = g.snap();
            return Ok(Some((e, s)));
        }
        add_sources(&mut g, 2);
        let (kbuf, dbuf) = (g.kbuf.clone(), g.dbuf.clone());
        let mut o = Other::new(&kbuf, &dbuf, &prog.input, hostile);
        let mode = if real { below(3) } else { pick(&[0, 2]) };
        let r = drive(&mut g.sim, &mut o, mode, 60_000);
        let e = match r {
            Ok(true) => Ending::Halted,
            Ok(false) => Ending::Stuck,
            Err(e) => Ending::Error(crate::lock::err_name(&Err(e)), g.sim.prefetch_pc()),
        };
        o.release();
        g.sim.device_handler.io_read(0xFE04, false);
        let mut s = g.snap();
        let mut out = o.drained.clone();
        out.extend(&s.out);
        s.out = out;
        Ok(Some((e, s)))
    };
    let (Some((ev, sv)), Some((er, sr))) = (one(false, !noisy || coin())?, one(true, !noisy)?) else { return Ok(()) };
    if ev == Ending::Stuck {
        probe("virtual-trap run too long");
        return Ok(());
    }
    state(sv.count.min(3000) | (prog.end as u64) << 16);
    mix(sv.hash());
    mix(sr.hash());
    match ev {
        Ending::Halted => {
            probe("programs that halt");
            ensure!(er == Ending::Halted, "traps:ending", "halts under virtual traps, ends in {er:?} under real traps");
            if let Some((c, m)) = sv.diff(&sr, &[0, 1, 2, 3, 4, 5], 0x3000..0xFE00) {
                return viol(format!("traps:{c}"), format!("under real traps {m} (under virtual traps)"));
            }
        }
        Ending::Error(name, at) => {
            let Some(m) = message(name) else {
                return viol("traps:error", format!("stopped with {name} under virtual traps"));
            };
            probe("programs that fault");
            if let Some(f) = prog.fault_at {
                ensure!(at == f, "traps:fault-address", "{name} reported at x{at:04X}, the faulting instruction is at x{f:04X}");
            }
            ensure!(er == Ending::Halted, "traps:ending", "{name} under virtual traps; under real traps the run ends in {er:?}, not in a halt");
            let mut want = sv.out.clone();
            want.extend(m.bytes());
            ensure!(
                sr.out == want,
                "traps:message",
                "{name} under virtual traps; under real traps the display holds {:?}, expected {:?}",
                String::from_utf8_lossy(&sr.out),
                String::from_utf8_lossy(&want)
            );
            if let Some(a) = (0x3000..0xFE00).find(|&a| sv.mem[a] != sr.mem[a]) {
                return viol("traps:mem", format!("mem[x{a:04X}] is x{:04X} under real traps, x{:04X} under virtual", sr.mem[a], sv.mem[a]));
            }
        }
        Ending::Stuck => {}
    }
    nontrivial();
    Ok(())
}
