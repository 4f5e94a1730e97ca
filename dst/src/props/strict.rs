//! C14: a strict machine in lockstep with a non-strict one.
use super::step::*;
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::lock::*;
use crate::prog::*;
use lc3_ensemble::asm::assemble;
use lc3_ensemble::parse::parse_ast;
use lc3_ensemble::sim::device::ExternalDevice;
use lc3_ensemble::sim::SimFlags;
use std::fmt::Write;

fn is_strict(n: &str) -> bool {
    n.starts_with("Strict")
}

/// Words, with `None` reserved but not initialised, as one block.
fn block(src: &mut String, start: u16, words: &[Option<u16>]) {
    let _ = writeln!(src, ".orig x{start:04X}");
    for w in words {
        let _ = match w {
            Some(w) => writeln!(src, ".fill x{w:04X}"),
            None => writeln!(src, ".blkw 1"),
        };
    }
    let _ = writeln!(src, ".end");
}

fn load(l: &mut Lock, src: &str) -> Res {
    let ast = match parse_ast(src) {
        Ok(a) => a,
        Err(e) => return viol("harness:parse", format!("{e} in {src}")),
    };
    let obj = match assemble(ast) {
        Ok(o) => o,
        Err(e) => return viol("harness:assemble", format!("{e} in {src}")),
    };
    ensure!(l.sim.load_obj_file(&obj).is_ok(), "harness:load", "load failed");
    if let Some(x) = &mut l.mirror {
        ensure!(x.sim.load_obj_file(&obj).is_ok(), "harness:load", "load failed");
    }
    l.resync();
    Ok(())
}

fn make_pair(l: &mut Lock) {
    let flags = SimFlags { strict: true, ..l.sim.flags };
    l.make_mirror(flags);
}
fn init_all(l: &mut Lock) {
    for a in 0..=0xFFFFu16 {
        let v = l.sim.mem[a].get();
        l.poke(a, v);
    }
    for r in 0..8 {
        let v = l.m.r[r];
        l.set_reg(r, v);
    }
    let s = l.m.saved_sp;
    l.set_saved_sp(s);
    probe("fully initialised machines");
}
/// Steps both machines. Frame depths are comparable (`depth_ok`) until
/// strict mode first rejects a step.
fn pair_step(l: &mut Lock, all_init: bool, depth_ok: &mut bool) -> Res<Report> {
        let count0 = l.sim.instructions_run;
        let depth0 = l.sim.frame_stack.len();
        let x = l.mirror.as_mut().expect("mirror");
        x.log.lock().unwrap().clear();
        let rb = x.sim.step_in();
        let nb = err_name(&rb);
        let events_b = std::mem::take(&mut *x.log.lock().unwrap());
        let r = l.step();
        let na = err_name(&r.result);
        let at = format!("step at x{:04X} ({:?})", r.pc_before, r.log.kind);
        if r.mismatch.is_some() || r.log.unjudged.is_some() {
            // What the step itself does is C08's business.
            l.resync();
        }
        if is_strict(nb) {
            ensure!(!all_init, "strict:spurious", "{at}: {nb} on a machine whose memory and registers are all initialised");
            ensure!(!is_strict(na), "strict:flag-ignored", "{at}: the non-strict machine reported {na}");
            probe("steps rejected by strict mode");
            nontrivial();
            state(nb.len() as u64 | (match r.log.kind { crate::model::Kind::Instr(w) => w as u64 >> 12, _ => 16 }) << 8);
            l.copy_to_mirror();
            *depth_ok = false;
            return Ok(r);
        }
        ensure!(na == nb, "strict:result", "{at}: strict mode returned {nb}, non-strict {na}");
        let x = l.mirror.as_mut().expect("mirror");
        let same_events = events_b == l.last_events;
        ensure!(same_events, "strict:device", "{at}: device accesses {:04x?} under strict mode, {:04x?} without", events_b, l.last_events);
        ensure!(x.sim.pc == l.sim.pc, "strict:pc", "{at}: PC is x{:04X} under strict mode, x{:04X} without", x.sim.pc, l.sim.pc);
        for i in 0..8 {
            let (a, b) = (l.sim.reg_file[REGS[i]], x.sim.reg_file[REGS[i]]);
            ensure!(a.get() == b.get(), "strict:reg", "{at}: R{i} is x{:04X} under strict mode, x{:04X} without", b.get(), a.get());
        }
        let (pa, pb) = (l.sim.psr().get(), x.sim.psr().get());
        ensure!(pa == pb, "strict:psr", "{at}: PSR is x{pb:04X} under strict mode, x{pa:04X} without");
        let (sa, sb) = (l.sim.read_mem(SSP_PORT, omni()).map(|w| w.get()), x.sim.read_mem(SSP_PORT, omni()).map(|w| w.get()));
        ensure!(sa.ok() == sb.ok(), "strict:saved-sp", "{at}: saved SP differs under strict mode");
        ensure!(
            l.sim.instructions_run.wrapping_sub(count0) == x.sim.instructions_run.wrapping_sub(count0),
            "strict:count",
            "{at}: instruction count {} under strict mode, {} without",
            x.sim.instructions_run,
            l.sim.instructions_run
        );
        if *depth_ok {
            ensure!(
                x.sim.frame_stack.len() == l.sim.frame_stack.len(),
                "strict:depth",
                "{at}: frame depth {} under strict mode, {} without (was {depth0})",
                x.sim.frame_stack.len(),
                l.sim.frame_stack.len()
            );
        }
        let (ia, ib) = (l.sim.device_handler.io_read(0xFE00, false), x.sim.device_handler.io_read(0xFE00, false));
        ensure!(ia == ib, "strict:kbsr", "{at}: KBSR is {ib:04x?} under strict mode, {ia:04x?} without");
        ensure!(*x.kbuf.read().unwrap() == *l.kbuf.read().unwrap(), "strict:keyboard", "{at}: keyboard queues differ");
        ensure!(*x.dbuf.read().unwrap() == *l.dbuf.read().unwrap(), "strict:display", "{at}: displays differ");
        let full = l.steps % 16 == 0;
        let touched: Vec<u16> = if full { (0..=0xFFFF).collect() } else { r.log.writes.iter().map(|w| w.0).chain(r.log.reads.iter().copied()).collect() };
        for a in touched {
            let (va, vb) = (l.sim.mem[a].get(), x.sim.mem[a].get());
            ensure!(va == vb, "strict:mem", "{at}: mem[x{a:04X}] is x{vb:04X} under strict mode, x{va:04X} without");
        }
        probe("steps accepted by strict mode");
    Ok(r)
}


pub fn c14() -> Res {
    let mut depth_ok = true;
    if coin() {
        // A program loaded from an object file whose data is partly reserved.
        let mut pm = program_machine(coin(), &[End::Halt, End::Halt, End::Illegal, End::AcvLoad, End::AcvFetch, End::Rti]);
        make_pair(&mut pm.l);
        let all = chance(1, 3);
        let n = pm.prog.words.len();
        let words: Vec<Option<u16>> = pm
            .prog
            .words
            .iter()
            .enumerate()
            .map(|(i, &w)| if !all && (i + 14 > n || chance(1, 60)) && coin() { None } else { Some(w) })
            .collect();
        let mut src = String::new();
        block(&mut src, pm.prog.base, &words);
        if coin() {
            let b: Vec<Option<u16>> = (0..range(1, 12)).map(|_| if coin() { None } else { Some(word()) }).collect();
            block(&mut src, pick(&[0x4000u16, 0xFCF8, 0x2FE0, 0x5000]), &b);
        }
        load(&mut pm.l, &src)?;
        if all {
            init_all(&mut pm.l);
        } else if coin() {
            pm.l.uninit_reg(below(8) as usize);
        }
        for _ in 0..300 {
            let done = span(|| -> Res<bool> {
                pm.environment();
                let r = pair_step(&mut pm.l, all, &mut depth_ok)?;
                pm.acknowledge(&r);
                Ok(pm.done(&r))
            })?;
            if done {
                break;
            }
        }
        mix(pm.l.sim.pc as u64);
        return Ok(());
    }
    let mut l = chaos_machine(false);
    make_pair(&mut l);
    if coin() {
        let mut src = String::new();
        let mut at = 0x3000u16;
        for _ in 0..range(1, 3) {
            let b: Vec<Option<u16>> = (0..range(1, 20)).map(|_| if coin() { None } else { Some(edge_word()) }).collect();
            block(&mut src, at, &b);
            at += 0x20 * range(1, 4) as u16;
        }
        load(&mut l, &src)?;
    }
    let all = chance(1, 3);
    if all {
        init_all(&mut l);
    }
    let mx = mix_of(pick(&[0, 1, 2, 4]));
    for _ in 0..range(1, 120) {
        span(|| -> Res {
            environment(&mut l);
            if !chance(1, 5) {
                place(&mut l, &mx);
            }
            if !all && chance(1, 3) {
                if coin() {
                    l.uninit_reg(below(8) as usize);
                } else {
                    let a = edge_addr(&l);
                    l.uninit(a);
                }
                fault("word becomes uninitialised");
            }
            pair_step(&mut l, all, &mut depth_ok)?;
            Ok(())
        })?;
    }
    mix(l.sim.pc as u64);
    Ok(())
}
