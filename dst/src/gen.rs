//! Generators shared by the scenarios: interesting values and addresses,
//! and adaptive instruction placement.
use crate::ctx::*;
use crate::lock::Lock;
use crate::model::*;

/// A seed; the ones a special case would be written for included.
pub fn seed() -> u64 {
    match below(4) {
        0 => pick(&[0u64, 1, u64::MAX, 1 << 63, 0xFFFF_FFFF, 1 << 32]),
        1 => below(1 << 16),
        _ => any_u64(),
    }
}
pub fn edge_word() -> u16 {
    match weighted(&[4, 4, 2, 4]) {
        0 => below(8) as u16,
        1 => pick(&[0xFFFF, 0x8000, 0x7FFF, 0x0001, 0x8001, 0x00FF, 0x0100, 0xFF00, 0x4000, 0xC000]),
        2 => (0u16).wrapping_sub(below(20) as u16),
        _ => word(),
    }
}

/// Addresses at and around every boundary the machine distinguishes.
pub fn edge_addr(l: &Lock) -> u16 {
    match weighted(&[6, 6, 4, 3, 3, 3, 2]) {
        0 => 0x3000u16.wrapping_add(below(64) as u16),
        1 => pick(&[
            0x2FFF, 0x3000, 0x3001, 0x2FFE, 0xFDFF, 0xFE00, 0xFDFE, 0xFE01, 0x0000, 0x0001, 0x00FF, 0x0100, 0x01FF, 0x0200, 0xFFFF,
            0xFFFE,
        ]),
        2 => pick(&[0xFE00, 0xFE02, 0xFE04, 0xFE06, 0xFFFC, 0xFFFE, 0xFFF0, 0xFFFF, 0xFE01, 0xFE03]),
        3 => l.m.pc.wrapping_add(below(16) as u16).wrapping_sub(6),
        4 => l.m.r[6].wrapping_add(below(8) as u16).wrapping_sub(4),
        5 => {
            let ps: Vec<u16> = l.ports.iter().flat_map(|p| p.ports.iter().copied()).collect();
            if ps.is_empty() {
                0xFE10
            } else {
                pick(&ps)
            }
        }
        _ => word(),
    }
}

pub fn alu() -> u16 {
    let (dr, sr) = (below(8) as u16, below(8) as u16);
    let op2 = if coin() { 0x20 | below(32) as u16 } else { below(8) as u16 };
    match below(3) {
        0 => 0x1000 | dr << 9 | sr << 6 | op2,
        1 => 0x5000 | dr << 9 | sr << 6 | op2,
        _ => 0x903F | dr << 9 | sr << 6,
    }
}
/// A word that is no instruction: reserved opcode or a malformed encoding.
pub fn malformed() -> u16 {
    match below(9) {
        0 => 0xD000 | below(0x1000) as u16,
        1 => 0x1000 | (below(0x200) as u16) << 3 & 0x0FC0 | (1 + below(3) as u16) << 3 | below(8) as u16,
        2 => 0x5000 | (below(0x200) as u16) << 3 & 0x0FC0 | (1 + below(3) as u16) << 3 | below(8) as u16,
        3 => 0x4000 | (1 + below(3) as u16) << 9 | (below(8) as u16) << 6,
        4 => 0x4000 | (below(8) as u16) << 6 | 1 << below(6),
        5 => 0x9000 | (below(0x40) as u16) << 6 | below(0x3F) as u16,
        6 => 0xC000 | (below(8) as u16) << 6 | if coin() { 1 << below(6) } else { 1 << (9 + below(3)) },
        7 => 0x8000 | (1 + below(0xFFF)) as u16,
        _ => 0xF000 | (1 + below(15) as u16) << 8 | below(256) as u16,
    }
}

pub struct Mix {
    pub alu: u32,
    pub mem: u32,
    pub flow: u32,
    pub trap: u32,
    pub rti: u32,
    pub bad: u32,
    pub raw: u32,
}

/// Writes one instruction at the PC (and what it needs: base registers,
/// pointers, targets, stack contents), aimed at an interesting effect.
pub fn place(l: &mut Lock, mx: &Mix) {
    let pc = l.m.pc;
    let next = pc.wrapping_add(1);
    let w = match weighted(&[mx.alu, mx.mem, mx.flow, mx.trap, mx.rti, mx.bad, mx.raw]) {
        0 => alu(),
        1 => place_mem(l),
        2 => match below(4) {
            0 => below(8) as u16 * 0x200 | (pick(&[0u16, 1, 2, 0x1FF, 0x1FE, 0xFF, 0x100]) & 0x1FF),
            1 => 0x4800 | pick(&[0u16, 1, 3, 0x7FF, 0x7F0, 0x3FF, 0x400]),
            2 => {
                let b = below(8) as u16;
                if b != 6 || chance(1, 4) {
                    let t = edge_addr(l);
                    l.set_reg(b as usize, t);
                }
                0x4000 | b << 6
            }
            _ => {
                let b = if coin() { 7 } else { below(8) as u16 };
                if chance(1, 2) {
                    let t = edge_addr(l);
                    l.set_reg(b as usize, t);
                }
                0xC000 | b << 6
            }
        },
        3 => {
            let v = match below(3) {
                0 => 0x20 + below(6) as u16,
                1 => pick(&[0x25u16, 0x00, 0x01, 0x02, 0xFF, 0x26, 0x1F]),
                _ => below(256) as u16,
            };
            if chance(1, 3) {
                let t = edge_addr(l);
                l.poke(v, t);
            }
            0xF000 | v
        }
        4 => {
            if chance(3, 4) {
                let sp = l.m.r[6];
                if sp < 0xFDFE {
                    let t = edge_addr(l);
                    l.poke(sp, t);
                    let p = psr_value();
                    l.poke(sp.wrapping_add(1), p);
                }
            }
            0x8000
        }
        5 => malformed(),
        _ => word(),
    };
    let _ = next;
    l.poke(pc, w);
}
pub fn psr_value() -> u16 {
    (below(2) as u16) << 15 | (below(8) as u16) << 8 | pick(&[2u16, 4, 1, 0, 7, 3]) | if chance(1, 16) { word() & 0x78F8 } else { 0 }
}
fn place_mem(l: &mut Lock) -> u16 {
    let next = l.m.pc.wrapping_add(1);
    let r = below(8) as u16;
    let store = coin();
    match below(3) {
        // Base register and offset.
        0 => {
            let b = below(8) as u16;
            let off = pick(&[0u16, 1, 2, 0x3F, 0x3E, 0x1F, 0x20]);
            if chance(5, 6) {
                let t = edge_addr(l);
                l.set_reg(b as usize, t.wrapping_sub(sext(off, 6)));
            }
            (if store { 0x7000 } else { 0x6000 }) | r << 9 | b << 6 | off
        }
        // PC-relative.
        1 => {
            let off = pick(&[0u16, 1, 5, 0x1FF, 0x1F8, 0xFF, 0x100]);
            (if store { 0x3000 } else { 0x2000 }) | r << 9 | off
        }
        // Indirect.
        _ => {
            let off = pick(&[0u16, 1, 5, 0x1F0, 0xFF, 0x100]);
            let p = next.wrapping_add(sext(off, 9));
            if chance(5, 6) {
                let t = edge_addr(l);
                l.poke(p, t);
            }
            (if store { 0xB000 } else { 0xA000 }) | r << 9 | off
        }
    }
}
