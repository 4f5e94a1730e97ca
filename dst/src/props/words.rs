//! C15: replicas of one history that differ only in what their uninitialised
//! bits happen to hold. Whatever one replica reports as initialised must have
//! the same value in all of them.
use super::rig::*;
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::lock::*;
use lc3_ensemble::sim::mem::{MachineInitStrategy, Word};
use lc3_ensemble::sim::{SimFlags, Simulator};

const N: usize = 4;
/// One word of the history, as each replica holds it.
type Reps = [Word; N];

fn init(v: u16) -> Word {
    Word::new_init(v)
}
/// The bits a word reports as initialised. The only question a word answers is
/// whether all of it is, so each bit is asked for by masking the others away.
fn known(w: Word) -> u16 {
    (0..16).filter(|i| (w & init(1 << i)).is_init()).fold(0, |m, i| m | 1 << i)
}
/// Contents no one decided: each replica draws its own.
fn garbage() -> Reps {
    let how = below(4);
    let v = word();
    fault("uninitialised contents drawn");
    std::array::from_fn(|i| match (how, i) {
        // Every bit differs between two replicas.
        (0, _) => Word::new_uninit(&mut if i % 2 == 0 { v } else { !v }),
        (1, _) => Word::new_uninit(&mut [0u16, 0xFFFF, v, 1][i]),
        (2, _) => Word::new_uninit(&mut word()),
        // Operating-system entropy.
        _ => Word::new_uninit(&mut ()),
    })
}
/// A word whose bits under `mask` are initialised to those of `v`, by the
/// operations a program has for that.
fn partial(mask: u16, v: u16) -> Reps {
    garbage().map(|w| {
        let zeros = w & init(!(mask & !v));
        !(!zeros & init(!(mask & v)))
    })
}
fn mask() -> u16 {
    match below(8) {
        0 => 0,
        1 => 0xFFFF,
        2 => 1 << below(16),
        3 => !(1u16 << below(16)),
        // A run from the bottom or the top.
        4 => (1u32 << below(17)).wrapping_sub(1) as u16,
        5 => !((1u32 << below(17)).wrapping_sub(1) as u16),
        6 => pick(&[0x00FF, 0xFF00, 0x0FF0, 0x5555, 0xAAAA]),
        _ => word(),
    }
}
fn fresh() -> Reps {
    span(|| match below(4) {
        0 => garbage(),
        1 => [init(edge_word()); N],
        2 if coin() => {
            // Initialised, and then not any more.
            let mut w = partial(mask(), word());
            w.iter_mut().for_each(|w| w.clear_init());
            let other = garbage();
            std::array::from_fn(|i| Word::new_uninit(&mut other[i].get()))
        }
        _ => partial(mask(), edge_word()),
    })
}
/// Whether the replicas agree on everything any of them reports as known.
fn sound(ws: &Reps) -> Result<u16, String> {
    let ks = ws.map(known);
    for i in 0..N {
        for j in 0..N {
            let d = (ws[i].get() ^ ws[j].get()) & ks[i];
            if d != 0 {
                return Err(format!(
                    "bits x{d:04X} are reported as initialised, but are x{:04X} or x{:04X} depending on uninitialised bits (reported x{:04X}, x{:04X})",
                    ws[i].get() & d,
                    ws[j].get() & d,
                    ks[i],
                    ks[j]
                ));
            }
        }
    }
    Ok(ks[0])
}
fn show(ws: &Reps) -> String {
    ws.iter().map(|w| format!("{:04x}/{:04x}", w.get(), known(*w))).collect::<Vec<_>>().join(" ")
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Add,
    Sub,
    And,
    Not,
}
/// What an operation may yield, given the operands.
fn judge(op: Op, a: &Reps, b: &Reps, got: &Reps, how: &str) -> Res {
    for i in 0..N {
        let (x, y) = (a[i].get(), b[i].get());
        let want = match op {
            Op::Add => x.wrapping_add(y),
            Op::Sub => x.wrapping_sub(y),
            Op::And => x & y,
            Op::Not => !x,
        };
        if a[i].is_init() && b[i].is_init() {
            nontrivial();
            ensure!(got[i].is_init(), "words:lost", "{op:?} ({how}) of x{x:04X} and x{y:04X}, both initialised, is not initialised");
            ensure!(got[i].get() == want, "words:value", "{op:?} ({how}) of x{x:04X} and x{y:04X} is x{:04X}, expected x{want:04X}", got[i].get());
            ensure!(got[i].get_if_init(true, ()).is_ok(), "words:lost", "{op:?} ({how}) of initialised words is refused by get_if_init");
        }
        if !got[i].is_init() {
            ensure!(got[i].get_if_init(true, ()).is_err(), "words:strict", "get_if_init accepts a word that is not initialised");
        }
    }
    match sound(got) {
        Ok(k) => {
            mix(k as u64 | (got[0].get() as u64) << 16);
            state(op as u64 | (k.count_ones() as u64) << 2 | (known(a[0]).count_ones() as u64) << 8 | (known(b[0]).count_ones() as u64) << 14);
            if k != 0 && k != 0xFFFF {
                nontrivial();
                probe("results initialised in part");
            }
            Ok(())
        }
        Err(m) => viol("words:unsound", format!("{op:?} ({how}) of [{}] and [{}] gives [{}]: {m}", show(a), show(b), show(got))),
    }
}

/// Words in the host's hands.
fn host_words() -> Res {
    let mut pool: Vec<Reps> = vec![fresh(), fresh()];
    for _ in 0..range(1, 40) {
        span(|| -> Res {
            tick(1);
            let i = below(pool.len() as u64) as usize;
            let a = if chance(1, 3) { fresh() } else { pool[i] };
            let j = below(pool.len() as u64) as usize;
            let b = if chance(1, 3) { fresh() } else { pool[j] };
            let op = pick(&[Op::Add, Op::Sub, Op::And, Op::Not]);
            // By value, in place, or in place with a plain number.
            let how = below(4);
            let num = edge_word();
            let b: Reps = if op == Op::Not {
                a
            } else if how >= 2 && op != Op::And {
                [init(num); N]
            } else {
                b
            };
            let got: Reps = std::array::from_fn(|k| {
                let (x, y) = (a[k], b[k]);
                let mut z = x;
                match (op, how) {
                    (Op::Not, _) => z = !x,
                    (Op::And, 0 | 2) => z = x & y,
                    (Op::And, _) => z &= y,
                    (Op::Add, 0) => z = x + y,
                    (Op::Add, 1) => z += y,
                    (Op::Add, 2) => z += num,
                    (Op::Add, _) => z += num as i16,
                    (Op::Sub, 0) => z = x - y,
                    (Op::Sub, 1) => z -= y,
                    (Op::Sub, 2) => z -= num,
                    (Op::Sub, _) => z -= num as i16,
                }
                z
            });
            trace(|| format!("{op:?} {how}: [{}] and [{}] give [{}]", show(&a), show(&b), show(&got)));
            sched((op as u64) << 2 | how);
            judge(op, &a, &b, &got, ["by value", "in place", "in place, unsigned", "in place, signed"][how as usize])?;
            if pool.len() < 6 {
                pool.push(got);
            } else {
                pool[i] = got;
            }
            Ok(())
        })?;
    }
    Ok(())
}

/// Replicas of a machine, each started from its own entropy, in lockstep.
fn machines() -> Res {
    let debug_frames = coin();
    let how = below(3);
    let mut ms: Vec<Simulator> = (0..N)
        .map(|i| {
            crate::entropy::reseed(any_u64());
            let machine_init = match (how, i) {
                (0, _) => MachineInitStrategy::Unseeded,
                (1, _) => MachineInitStrategy::Seeded { seed: seed() },
                _ => MachineInitStrategy::Known { value: [0, 0xFFFF, 0x5555, 0xAAAA][i] },
            };
            fault("machine filled from its own entropy");
            Simulator::new(SimFlags { strict: false, machine_init, debug_frames, ..Default::default() })
        })
        .collect();
    let data = 0x4000u16;
    let base = 0x3000u16;
    for s in &mut ms {
        s.pc = base;
    }
    let reg = |ms: &[Simulator], r: usize| -> Reps { std::array::from_fn(|i| ms[i].reg_file[REGS[r]]) };
    for step in 0..range(1, 60) {
        span(|| -> Res {
            tick(1);
            // The host may prepare a register.
            if chance(1, 4) {
                let (r, w) = (below(8) as usize, fresh());
                trace(|| format!("R{r} = [{}]", show(&w)));
                for i in 0..N {
                    ms[i].reg_file[REGS[r]] = w[i];
                }
            }
            let pc = ms[0].pc;
            let w = match weighted(&[10, 2, 2]) {
                0 => alu(),
                // Through memory: LD and ST at nearby words.
                1 => 0x2000 | (below(8) as u16) << 9 | (0x40 + below(16) as u16),
                _ => 0x3000 | (below(8) as u16) << 9 | (0x40 + below(16) as u16),
            };
            let (op, dr, sr1) = (w >> 12, (w >> 9 & 7) as usize, (w >> 6 & 7) as usize);
            let a = reg(&ms, sr1);
            let b = if w & 0x20 != 0 { [init((((w & 31) << 11) as i16 >> 11) as u16); N] } else { reg(&ms, (w & 7) as usize) };
            let clean = sound(&a).is_ok() && sound(&b).is_ok();
            for (i, s) in ms.iter_mut().enumerate() {
                s.mem[pc].set(w);
                s.mcr().store(true, std::sync::atomic::Ordering::Relaxed);
                let r = s.step_in();
                if r.is_err() || s.pc != pc.wrapping_add(1) {
                    // What an instruction does otherwise is C08's business.
                    probe("steps that did not complete (not judged here)");
                    s.pc = pc.wrapping_add(1);
                }
                let _ = i;
            }
            trace(|| format!("step {step}: x{w:04X}"));
            sched(w as u64);
            if ms[0].pc >= data - 0x80 {
                for s in &mut ms {
                    s.pc = base;
                }
            }
            let op = match op {
                1 => Op::Add,
                5 => Op::And,
                9 => Op::Not,
                _ => return Ok(()),
            };
            let b = if op == Op::Not { a } else { b };
            if clean {
                judge(op, &a, &b, &reg(&ms, dr), "executed")?;
                probe("executed operations judged");
            }
            Ok(())
        })?;
    }
    Ok(())
}

pub fn c15() -> Res {
    if chance(1, 3) {
        machines()
    } else {
        host_words()
    }
}
