//! A tiny word-level assembler and generators of terminating LC-3 programs
//! and interrupt handlers (independent of the repository's assembler).
use crate::ctx::*;

#[derive(Clone, Copy, Debug)]
enum Fix {
    Off9,
    Off11,
    Abs,
}
pub type Label = usize;

#[derive(Default, Clone)]
pub struct Asm {
    pub base: u16,
    pub words: Vec<u16>,
    labels: Vec<Option<u16>>,
    fixes: Vec<(usize, Fix, Label)>,
}
pub const OUT: u16 = 0xF021;
pub const GETC: u16 = 0xF020;
pub const PUTS: u16 = 0xF022;
pub const IN: u16 = 0xF023;
pub const PUTSP: u16 = 0xF024;
pub const HALT: u16 = 0xF025;
pub const RET: u16 = 0xC1C0;
pub const RTI: u16 = 0x8000;

impl Asm {
    pub fn new(base: u16) -> Self {
        Asm { base, ..Default::default() }
    }
    pub fn here(&self) -> u16 {
        self.base.wrapping_add(self.words.len() as u16)
    }
    pub fn label(&mut self) -> Label {
        self.labels.push(None);
        self.labels.len() - 1
    }
    pub fn bind(&mut self, l: Label) {
        self.labels[l] = Some(self.here());
    }
    pub fn bound(&mut self) -> Label {
        let l = self.label();
        self.bind(l);
        l
    }
    pub fn addr(&self, l: Label) -> u16 {
        self.labels[l].expect("bound label")
    }
    pub fn w(&mut self, w: u16) {
        self.words.push(w);
    }
    fn fix(&mut self, w: u16, f: Fix, l: Label) {
        self.fixes.push((self.words.len(), f, l));
        self.words.push(w);
    }
    pub fn add(&mut self, d: u16, s: u16, r: u16) {
        self.w(0x1000 | d << 9 | s << 6 | r)
    }
    pub fn addi(&mut self, d: u16, s: u16, i: i16) {
        debug_assert!((-16..16).contains(&i));
        self.w(0x1020 | d << 9 | s << 6 | (i as u16 & 31))
    }
    pub fn and(&mut self, d: u16, s: u16, r: u16) {
        self.w(0x5000 | d << 9 | s << 6 | r)
    }
    pub fn andi(&mut self, d: u16, s: u16, i: i16) {
        self.w(0x5020 | d << 9 | s << 6 | (i as u16 & 31))
    }
    pub fn not(&mut self, d: u16, s: u16) {
        self.w(0x903F | d << 9 | s << 6)
    }
    pub fn br(&mut self, nzp: u16, l: Label) {
        self.fix(nzp << 9, Fix::Off9, l)
    }
    pub fn ld(&mut self, d: u16, l: Label) {
        self.fix(0x2000 | d << 9, Fix::Off9, l)
    }
    pub fn st(&mut self, d: u16, l: Label) {
        self.fix(0x3000 | d << 9, Fix::Off9, l)
    }
    pub fn ldi(&mut self, d: u16, l: Label) {
        self.fix(0xA000 | d << 9, Fix::Off9, l)
    }
    pub fn sti(&mut self, d: u16, l: Label) {
        self.fix(0xB000 | d << 9, Fix::Off9, l)
    }
    pub fn lea(&mut self, d: u16, l: Label) {
        self.fix(0xE000 | d << 9, Fix::Off9, l)
    }
    pub fn ldr(&mut self, d: u16, b: u16, o: i16) {
        self.w(0x6000 | d << 9 | b << 6 | (o as u16 & 63))
    }
    pub fn str(&mut self, d: u16, b: u16, o: i16) {
        self.w(0x7000 | d << 9 | b << 6 | (o as u16 & 63))
    }
    pub fn jsr(&mut self, l: Label) {
        self.fix(0x4800, Fix::Off11, l)
    }
    pub fn fill_label(&mut self, l: Label) {
        self.fix(0, Fix::Abs, l)
    }
    /// Loads an arbitrary constant (inline pool, jumped over).
    pub fn konst(&mut self, d: u16, v: u16) {
        let (k, over) = (self.label(), self.label());
        self.ld(d, k);
        self.br(7, over);
        self.bind(k);
        self.w(v);
        self.bind(over);
    }
    pub fn push(&mut self, r: u16) {
        self.addi(6, 6, -1);
        self.str(r, 6, 0);
    }
    pub fn pop(&mut self, r: u16) {
        self.ldr(r, 6, 0);
        self.addi(6, 6, 1);
    }
    pub fn finish(&mut self) -> bool {
        for (i, f, l) in std::mem::take(&mut self.fixes) {
            let t = self.addr(l);
            let pc = self.base.wrapping_add(i as u16).wrapping_add(1);
            let off = t.wrapping_sub(pc) as i16;
            match f {
                Fix::Off9 => {
                    if !(-256..256).contains(&off) {
                        return false;
                    }
                    self.words[i] |= off as u16 & 0x1FF
                }
                Fix::Off11 => self.words[i] |= off as u16 & 0x7FF,
                Fix::Abs => self.words[i] = t,
            }
        }
        true
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Halt,
    Illegal,
    Format,
    AcvLoad,
    AcvStore,
    AcvFetch,
    Rti,
    /// A trap vector the OS does not define.
    BadTrap,
}

#[derive(Clone)]
pub struct UserProg {
    pub base: u16,
    pub words: Vec<u16>,
    /// Bytes the program reads through GETC/IN.
    pub input: Vec<u8>,
    pub end: End,
    pub fault_at: Option<u16>,
    pub subs: Vec<u16>,
    /// Code that lies outside the block of `words`.
    pub extra: Vec<(u16, u16)>,
}
impl UserProg {
    pub fn load(&self, mut poke: impl FnMut(u16, u16)) {
        for &(a, w) in &self.extra {
            poke(a, w);
        }
        for (i, &w) in self.words.iter().enumerate() {
            poke(self.base.wrapping_add(i as u16), w);
        }
    }
    pub fn dump(&self) -> String {
        format!("program at x{:04X} ending in {:?}: {:04x?} and {:04x?}", self.base, self.end, self.words, self.extra)
    }
}

/// A program `n` calls deep, which then executes `m` returns and halts; it
/// needs no stack.
pub fn deep_prog(base: u16, n: u16, m: u16) -> UserProg {
    let mut a = Asm::new(base);
    let [f, back, out] = std::array::from_fn(|_| a.label());
    a.konst(0, n);
    a.konst(1, m.wrapping_add(1));
    a.jsr(f);
    a.bind(out);
    a.w(HALT);
    a.bind(f);
    a.addi(0, 0, -1);
    a.br(2, back);
    a.jsr(f);
    a.bind(back);
    a.addi(1, 1, -1);
    a.br(2, out);
    a.w(RET);
    assert!(a.finish());
    let subs = vec![a.addr(f)];
    UserProg { base, words: a.words, input: vec![], end: End::Halt, fault_at: None, subs, extra: vec![] }
}
/// A loop of `2 * n` instructions.
pub fn long_prog(base: u16, n: u16) -> UserProg {
    let mut a = Asm::new(base);
    a.konst(0, n);
    let l = a.bound();
    a.addi(0, 0, -1);
    a.br(5, l);
    a.w(HALT);
    assert!(a.finish());
    UserProg { base, words: a.words, input: vec![], end: End::Halt, fault_at: None, subs: vec![], extra: vec![] }
}

#[derive(Clone)]
pub struct ProgOpts {
    pub base: u16,
    pub stack: u16,
    pub output: bool,
    pub input: bool,
    pub ends: Vec<End>,
    pub max_blocks: u64,
    pub subs: bool,
    /// Reads words that live in system space or I/O (user programs must not).
    pub init_regs: bool,
    /// The instruction that faults may be the last of user space.
    pub edge: bool,
}
impl Default for ProgOpts {
    fn default() -> Self {
        ProgOpts { base: 0x3000, stack: 0xFD00, output: true, input: false, ends: vec![End::Halt], max_blocks: 8, subs: true, init_regs: true, edge: false }
    }
}

struct G {
    a: Asm,
    slots: Vec<Label>,
    ptrs: Vec<Label>,
    strs: Vec<Label>,
    pstrs: Vec<Label>,
    subs: Vec<Label>,
    input: Vec<u8>,
    o: ProgOpts,
}

impl G {
    fn free(&self, locked: &[u16], max: u16) -> u16 {
        let f: Vec<u16> = (0..max).filter(|r| !locked.contains(r)).collect();
        pick(&f)
    }
    fn alu(&mut self, locked: &[u16], max: u16) {
        let d = self.free(locked, max);
        let s = below(8) as u16;
        match below(5) {
            0 => self.a.addi(d, s, below(32) as i16 - 16),
            1 => self.a.add(d, s, below(8) as u16),
            2 => self.a.andi(d, s, below(32) as i16 - 16),
            3 => self.a.and(d, s, below(8) as u16),
            _ => self.a.not(d, s),
        }
    }
    fn mem(&mut self, locked: &[u16], max: u16) {
        let d = self.free(locked, max);
        let slot = pick(&self.slots);
        let ptr = pick(&self.ptrs);
        match below(7) {
            0 => self.a.ld(d, slot),
            1 => self.a.st(d, slot),
            2 => self.a.ldi(d, ptr),
            3 => self.a.sti(d, ptr),
            4 => {
                let b = d;
                self.a.lea(b, slot);
                self.a.ldr(b, b, 0);
            }
            5 => {
                let b = self.free(locked, max);
                self.a.lea(b, slot);
                let v = below(6) as u16;
                self.a.str(v, b, 0);
            }
            _ => {
                self.a.push(d);
                self.a.addi(d, d, 3);
                let e = self.free(locked, max);
                self.a.pop(e);
            }
        }
    }
    fn block(&mut self, locked: &[u16], depth: u32) {
        span(|| {
            let big = depth < 2 && self.a.words.len() < 110;
            match weighted(&[
                4,
                4,
                if big { 3 } else { 0 },
                2,
                if self.o.subs && !self.subs.is_empty() { 2 } else { 0 },
                if self.o.output { 2 } else { 0 },
                if self.o.input && self.input.len() < 12 && depth == 0 { 3 } else { 0 },
            ]) {
                0 => {
                    for _ in 0..=below(4) {
                        self.alu(locked, 6)
                    }
                }
                1 => self.mem(locked, 6),
                2 => {
                    // Counted loop.
                    let c = pick(&[3u16, 4, 5]);
                    if locked.contains(&c) {
                        self.alu(locked, 6);
                        return;
                    }
                    let n = 1 + below(5) as i16;
                    self.a.andi(c, c, 0);
                    self.a.addi(c, c, n);
                    let top = self.a.bound();
                    let mut lk = locked.to_vec();
                    lk.push(c);
                    for _ in 0..=below(2) {
                        self.block(&lk, depth + 1);
                    }
                    self.a.addi(c, c, -1);
                    self.a.br(1, top);
                }
                3 => {
                    // Forward branch on whatever the condition codes are.
                    let skip = self.a.label();
                    self.alu(locked, 6);
                    self.a.br(1 + below(7) as u16, skip);
                    self.alu(locked, 6);
                    if coin() {
                        self.mem(locked, 6);
                    }
                    self.a.bind(skip);
                }
                4 => {
                    let s = pick(&self.subs);
                    if coin() {
                        self.a.jsr(s);
                    } else {
                        let r = pick(&[0u16, 1, 2]);
                        self.a.lea(r, s);
                        self.a.w(0x4000 | r << 6);
                    }
                }
                5 => match below(4) {
                    0 => {
                        let s = pick(&self.slots);
                        self.a.ld(0, s);
                        self.a.w(OUT);
                    }
                    1 => self.a.w(OUT),
                    2 => {
                        let s = pick(&self.strs);
                        self.a.lea(0, s);
                        self.a.w(PUTS);
                    }
                    _ => {
                        let s = pick(&self.pstrs);
                        self.a.lea(0, s);
                        self.a.w(PUTSP);
                    }
                },
                _ => {
                    self.input.push(below(256) as u8);
                    self.a.w(if chance(1, 4) { IN } else { GETC });
                    if coin() {
                        let s = pick(&self.slots);
                        self.a.st(0, s);
                    } else {
                        self.a.w(OUT);
                    }
                }
            }
        })
    }
}

/// A random terminating program. The stack pointer is initialised first.
pub fn user_prog(o: &ProgOpts) -> UserProg {
    let o = o.clone();
    let mut g = G { a: Asm::new(o.base), slots: vec![], ptrs: vec![], strs: vec![], pstrs: vec![], subs: vec![], input: vec![], o: o.clone() };
    for _ in 0..6 {
        let l = g.a.label();
        g.slots.push(l);
    }
    for _ in 0..2 {
        let l = g.a.label();
        g.ptrs.push(l);
    }
    for _ in 0..2 {
        let l = g.a.label();
        g.strs.push(l);
        let l = g.a.label();
        g.pstrs.push(l);
    }
    let nsubs = if o.subs { below(3) } else { 0 };
    for _ in 0..nsubs {
        let l = g.a.label();
        g.subs.push(l);
    }
    let stack = g.a.label();
    g.a.ld(6, stack);
    if o.init_regs {
        for r in 0..6u16 {
            if coin() {
                let s = pick(&g.slots);
                g.a.ld(r, s)
            } else {
                g.a.andi(r, r, 0)
            }
        }
        g.a.andi(7, 7, 0);
    }
    for _ in 0..range(1, o.max_blocks) {
        if g.a.words.len() > 120 {
            break;
        }
        g.block(&[], 0);
    }
    let end = pick(&o.ends);
    let mut fault_at = None;
    let mut extra = vec![];
    // Where the faulting instruction goes: in line, or somewhere of its own.
    let edge = (o.edge && o.stack <= 0xFD00 && end != End::Halt && chance(1, 4)).then(|| pick(&[0xFDFFu16, 0xFDFF, 0xFDFE, 0xFDF0]));
    let mut put = |g: &mut G, w: u16| match edge {
        Some(t) => {
            fault_at = Some(t);
            extra.push((t, w));
            g.a.konst(5, t);
            g.a.w(0xC140)
        }
        None => {
            fault_at = Some(g.a.here());
            g.a.w(w)
        }
    };
    match end {
        End::Halt => {}
        End::Illegal => {
            let w = 0xD000 | below(0x1000) as u16;
            put(&mut g, w)
        }
        End::Format => {
            let w = crate::gen::malformed();
            let w = if w >> 12 == 0xD { 0x9000 } else { w };
            put(&mut g, w)
        }
        End::AcvLoad | End::AcvStore => {
            let t = pick(&[0x2FFFu16, 0x0000, 0xFE00, 0xFFFF, 0xFE06, 0xFFFC, 0xFFFE, 0x0100, 0x0025]);
            let b = pick(&[1u16, 2, 3]);
            g.a.konst(b, t);
            put(&mut g, if end == End::AcvLoad { 0x6000 } else { 0x7000 } | 4 << 9 | b << 6)
        }
        End::AcvFetch if edge.is_some() => {
            // Off the end of user space.
            put(&mut g, 0x1021);
            extra.push((0xFDFE, 0x14A2));
            extra.push((0xFDFF, 0x1021));
            for a in 0xFDF0..0xFDFE {
                extra.push((a, 0x14A1));
            }
            fault_at = Some(0xFE00);
        }
        End::AcvFetch => {
            let t = pick(&[0x2FFFu16, 0x0200, 0xFE00, 0xFFFF, 0x0000]);
            g.a.konst(1, t);
            fault_at = Some(t);
            g.a.w(0xC040)
        }
        End::Rti => put(&mut g, RTI),
        End::BadTrap => {
            let v = pick(&[0x00u16, 0x1F, 0x26, 0x7F, 0x80, 0xFF]);
            put(&mut g, 0xF000 | v)
        }
    }
    let stop = g.a.bound();
    g.a.w(HALT);
    g.a.br(7, stop);
    // Subroutines: body, optionally with a nested call to a later one.
    let mut subs = vec![];
    for i in 0..g.subs.len() {
        let l = g.subs[i];
        g.a.bind(l);
        subs.push(g.a.here());
        let nested = i + 1 < g.subs.len() && coin();
        if nested {
            g.a.push(7);
        }
        for _ in 0..=below(2) {
            if coin() {
                g.alu(&[], 3)
            } else {
                g.mem(&[], 3)
            }
        }
        if nested {
            let n = g.subs[i + 1];
            g.a.jsr(n);
            g.a.pop(7);
        }
        g.a.w(RET);
    }
    // Data.
    g.a.bind(stack);
    g.a.w(o.stack);
    for i in 0..g.slots.len() {
        let l = g.slots[i];
        g.a.bind(l);
        let v = match below(3) {
            0 => below(256) as u16,
            1 => word(),
            _ => pick(&[0u16, 1, 0xFFFF, 0x8000, 0x7FFF]),
        };
        g.a.w(v);
    }
    for i in 0..g.ptrs.len() {
        let l = g.ptrs[i];
        g.a.bind(l);
        let s = pick(&g.slots);
        g.a.fill_label(s);
    }
    for i in 0..g.strs.len() {
        let l = g.strs[i];
        g.a.bind(l);
        for _ in 0..below(5) {
            let c = 1 + below(if chance(1, 4) { 0xFFFF } else { 255 }) as u16;
            g.a.w(c);
        }
        g.a.w(0);
    }
    for i in 0..g.pstrs.len() {
        let l = g.pstrs[i];
        g.a.bind(l);
        for _ in 0..below(4) {
            let c = (1 + below(255) as u16) | (1 + below(255) as u16) << 8;
            g.a.w(c);
        }
        let last = if coin() { 0 } else { 1 + below(255) as u16 };
        g.a.w(last);
        if last != 0 {
            g.a.w(0);
        }
    }
    let base = g.a.base;
    if !g.a.finish() {
        // Too long for PC-relative reach: fall back to the smallest program.
        probe("generated program too long");
        let mut a = Asm::new(base);
        a.w(HALT);
        return UserProg { base, words: a.words, input: vec![], end: End::Halt, fault_at: None, subs: vec![], extra: vec![] };
    }
    UserProg { base, words: g.a.words, input: g.input, end, fault_at, subs, extra }
}

/// A trap that does nothing, used inside handlers: the caller installs it.
pub const NEST_VECT: u16 = 0x30;
pub const NEST_ROUTINE: u16 = 0x0FF0;

/// How a handler quiets its interrupt source.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ack {
    None,
    /// Writes to a device's acknowledge port.
    Port(u16),
    /// Reads KBDR (takes the byte) and stores it.
    Keyboard,
    /// Clears KBSR's interrupt-enable bit.
    KeyboardOff,
}

/// An interrupt handler that saves and restores what it uses. Returns the
/// code and the address of a word it counts its activations in.
pub fn handler(base: u16, ack: Ack) -> (Asm, u16) {
    handler_lowering(base, ack, None)
}
/// A handler that, once its source is quiet, may lower its own priority.
pub fn handler_lowering(base: u16, ack: Ack, lower: Option<u16>) -> (Asm, u16) {
    let mut a = Asm::new(base);
    let used: Vec<u16> = match below(4) {
        0 => vec![0],
        1 => vec![0, 1],
        2 => vec![5, 0, 3],
        _ => vec![0, 1, 2, 3, 4, 5, 7],
    };
    let (cnt, port, buf, sub) = (a.label(), a.label(), a.label(), a.label());
    let (low, psr) = (a.label(), a.label());
    for &r in &used {
        a.push(r);
    }
    let early = coin();
    let do_ack = |a: &mut Asm| match ack {
        Ack::None => {}
        Ack::Port(_) => a.sti(0, port),
        Ack::Keyboard => {
            a.ldi(0, port);
            a.st(0, buf);
        }
        Ack::KeyboardOff => {
            a.andi(0, 0, 0);
            a.sti(0, port);
        }
    };
    if early {
        do_ack(&mut a);
    }
    a.ld(0, cnt);
    a.addi(0, 0, 1);
    a.st(0, cnt);
    // Clobber everything that was saved.
    for &r in &used {
        match below(3) {
            0 => a.not(r, r),
            1 => a.addi(r, 0, below(32) as i16 - 16),
            _ => a.andi(r, r, 0),
        }
    }
    if used.contains(&7) && coin() {
        a.jsr(sub);
    }
    if used.contains(&3) && coin() {
        a.andi(3, 3, 0);
        a.addi(3, 3, 1 + below(4) as i16);
        let top = a.bound();
        a.addi(3, 3, -1);
        a.br(1, top);
    }
    if chance(1, 4) {
        a.w(0xF000 | NEST_VECT);
    }
    if !early {
        do_ack(&mut a);
    }
    if lower.is_some() {
        a.ld(0, low);
        a.sti(0, psr);
    }
    for &r in used.iter().rev() {
        a.pop(r);
    }
    a.w(RTI);
    a.bind(sub);
    a.addi(0, 0, 7);
    a.w(RET);
    a.bind(port);
    a.w(match ack {
        Ack::Port(p) => p,
        Ack::Keyboard => 0xFE02,
        _ => 0xFE00,
    });
    a.bind(buf);
    a.w(0);
    a.bind(low);
    a.w(lower.unwrap_or(0) << 8 | 2);
    a.bind(psr);
    a.w(0xFFFC);
    a.bind(cnt);
    a.w(0);
    let c = a.addr(cnt);
    assert!(a.finish());
    (a, c)
}
