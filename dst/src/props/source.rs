//! C01, C02, C04, C26 and parts of C23 and C24: an editor saves versions of a
//! source file to a disk that loses, tears, duplicates and reorders what is
//! written; a build reads whatever is there. A reference assembler over the
//! parsed statements decides what the build must give.
use super::objfile::image_of;
use crate::ctx::*;
use crate::engine::guarded;
use crate::ensure;
use crate::gen::*;
use crate::objgen::*;
use crate::refparse::{bare, differ, parse as read, reading, relayout, renumber, Reading};
use lc3_ensemble::asm::{assemble, assemble_debug, AsmErr, AsmErrKind, ObjectFile, SourceInfo, SymbolTable};
use lc3_ensemble::asm::encoding::{BinaryFormat, ObjFileFormat};
use lc3_ensemble::ast::asm::{AsmInstr, Directive, Stmt, StmtKind};
use lc3_ensemble::ast::{ImmOrReg, Label, PCOffset};
use lc3_ensemble::err::{ErrSpan, Error};
use lc3_ensemble::parse::parse_ast;
use std::collections::{BTreeMap, BTreeSet};

// ---- The reference assembler ----

#[derive(Clone, Debug)]
pub struct Lab {
    pub addr: u16,
    pub external: bool,
    /// Declared external and defined (at address 0).
    pub both: bool,
    pub first: std::ops::Range<usize>,
}
#[derive(Debug, Default)]
pub struct Model {
    /// Violated conditions, by the name of the error kind, with the labels concerned.
    pub broken: BTreeMap<&'static str, BTreeSet<String>>,
    /// Conditions whose violation depends on a label that is both defined and external.
    pub unsure: BTreeMap<&'static str, BTreeSet<String>>,
    pub image: BTreeMap<u16, Option<u16>>,
    pub labels: BTreeMap<String, Lab>,
    pub lines: BTreeMap<usize, u16>,
}
fn up(s: &str) -> String {
    s.to_uppercase()
}
pub fn kind_name(k: AsmErrKind) -> &'static str {
    match k {
        AsmErrKind::UndetAddrLabel => "UndetAddrLabel",
        AsmErrKind::UndetAddrStmt => "UndetAddrStmt",
        AsmErrKind::UnclosedOrig => "UnclosedOrig",
        AsmErrKind::UnopenedOrig => "UnopenedOrig",
        AsmErrKind::OverlappingOrig => "OverlappingOrig",
        AsmErrKind::OverlappingLabels => "OverlappingLabels",
        AsmErrKind::WrappingBlock => "WrappingBlock",
        AsmErrKind::BlockInIO => "BlockInIO",
        AsmErrKind::OverlappingBlocks => "OverlappingBlocks",
        AsmErrKind::OffsetNewErr(_) => "OffsetNewErr",
        AsmErrKind::OffsetExternal => "OffsetExternal",
        AsmErrKind::CouldNotFindLabel => "CouldNotFindLabel",
    }
}
const LABEL_KINDS: &[&str] = &["UndetAddrLabel", "OverlappingLabels", "OffsetNewErr", "OffsetExternal", "CouldNotFindLabel"];

fn size(k: &StmtKind) -> u32 {
    match k {
        StmtKind::Instr(_) => 1,
        StmtKind::Directive(Directive::Fill(_)) => 1,
        StmtKind::Directive(Directive::Blkw(n)) => n.get() as u32,
        StmtKind::Directive(Directive::Stringz(s)) => s.len() as u32 + 1,
        StmtKind::Directive(_) => 0,
    }
}
/// A PC-relative operand: its field width and label, or its value.
enum Opnd<'a> {
    Lab(u32, &'a Label),
    Num(u16),
}
fn pc9(o: &PCOffset<i16, 9>) -> Opnd<'_> {
    match o {
        PCOffset::Offset(v) => Opnd::Num(v.get() as u16 & 0x1FF),
        PCOffset::Label(l) => Opnd::Lab(9, l),
    }
}
fn pc11(o: &PCOffset<i16, 11>) -> Opnd<'_> {
    match o {
        PCOffset::Offset(v) => Opnd::Num(v.get() as u16 & 0x7FF),
        PCOffset::Label(l) => Opnd::Lab(11, l),
    }
}
fn ir(o: &ImmOrReg<5>) -> u16 {
    match o {
        ImmOrReg::Imm(v) => 0x20 | v.get() as u16 & 31,
        ImmOrReg::Reg(r) => r.reg_no() as u16,
    }
}
/// An instruction's fixed bits and its PC-relative operand.
fn encode(i: &AsmInstr) -> (u16, Opnd<'_>) {
    let r = |r: &lc3_ensemble::ast::Reg| r.reg_no() as u16;
    let none = Opnd::Num(0);
    match i {
        AsmInstr::ADD(d, s, o) => (0x1000 | r(d) << 9 | r(s) << 6 | ir(o), none),
        AsmInstr::AND(d, s, o) => (0x5000 | r(d) << 9 | r(s) << 6 | ir(o), none),
        AsmInstr::BR(cc, o) => ((*cc as u16) << 9, pc9(o)),
        AsmInstr::JMP(b) => (0xC000 | r(b) << 6, none),
        AsmInstr::JSR(o) => (0x4800, pc11(o)),
        AsmInstr::JSRR(b) => (0x4000 | r(b) << 6, none),
        AsmInstr::LD(d, o) => (0x2000 | r(d) << 9, pc9(o)),
        AsmInstr::LDI(d, o) => (0xA000 | r(d) << 9, pc9(o)),
        AsmInstr::LDR(d, b, o) => (0x6000 | r(d) << 9 | r(b) << 6 | o.get() as u16 & 63, none),
        AsmInstr::LEA(d, o) => (0xE000 | r(d) << 9, pc9(o)),
        AsmInstr::NOT(d, s) => (0x903F | r(d) << 9 | r(s) << 6, none),
        AsmInstr::RET => (0xC1C0, none),
        AsmInstr::RTI => (0x8000, none),
        AsmInstr::ST(d, o) => (0x3000 | r(d) << 9, pc9(o)),
        AsmInstr::STI(d, o) => (0xB000 | r(d) << 9, pc9(o)),
        AsmInstr::STR(d, b, o) => (0x7000 | r(d) << 9 | r(b) << 6 | o.get() as u16 & 63, none),
        AsmInstr::TRAP(v) => (0xF000 | v.get() & 0xFF, none),
        AsmInstr::NOP(o) => (0x0000, pc9(o)),
        AsmInstr::GETC => (0xF020, none),
        AsmInstr::OUT | AsmInstr::PUTC => (0xF021, none),
        AsmInstr::PUTS => (0xF022, none),
        AsmInstr::IN => (0xF023, none),
        AsmInstr::PUTSP => (0xF024, none),
        AsmInstr::HALT => (0xF025, none),
    }
}

pub fn model(ast: &[Stmt], src: &str) -> Model {
    let mut m = Model::default();
    let mut bad: Vec<(&'static str, Option<String>)> = vec![];
    // First: where everything is.
    let mut lc: Option<u32> = None;
    let mut start = 0u32;
    let mut blocks: Vec<(u32, u32)> = vec![];
    let mut at: Vec<Option<u32>> = vec![];
    let bind = |m: &mut Model, bad: &mut Vec<_>, l: &Label, addr: u16, external: bool| {
        let key = up(&l.name);
        match m.labels.get_mut(&key) {
            None => {
                m.labels.insert(key, Lab { addr, external, both: false, first: l.span() });
            }
            Some(x) if x.addr != addr => bad.push(("OverlappingLabels", Some(key))),
            Some(x) => x.both |= x.external != external,
        }
    };
    // Line numbers of statement starts, in one pass over the source.
    let mut newlines = src.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i).peekable();
    let mut line = 0usize;
    for s in ast {
        for l in &s.labels {
            match lc {
                Some(a) => bind(&mut m, &mut bad, l, a as u16, false),
                None => bad.push(("UndetAddrLabel", Some(up(&l.name)))),
            }
        }
        while newlines.next_if(|&i| i < s.span.start).is_some() {
            line += 1;
        }
        at.push(lc);
        match &s.nucleus {
            StmtKind::Directive(Directive::Orig(a)) => {
                if lc.is_some() {
                    bad.push(("OverlappingOrig", None));
                    bad.push(("UnclosedOrig", None));
                    blocks.push((start, lc.unwrap_or(start)));
                }
                start = a.get() as u32;
                lc = Some(start);
            }
            StmtKind::Directive(Directive::End) => match lc.take() {
                Some(e) => blocks.push((start, e)),
                None => bad.push(("UnopenedOrig", None)),
            },
            StmtKind::Directive(Directive::External(l)) => bind(&mut m, &mut bad, l, 0, true),
            k => match &mut lc {
                None => bad.push(("UndetAddrStmt", None)),
                Some(a) => {
                    m.lines.insert(line, *a as u16);
                    *a += size(k);
                    if *a > 0x10000 {
                        bad.push(("WrappingBlock", None));
                    }
                    if *a > 0xFE00 {
                        bad.push(("BlockInIO", None));
                    }
                }
            },
        }
    }
    if lc.is_some() {
        bad.push(("UnclosedOrig", None));
    }
    blocks.retain(|b| b.0 < b.1);
    blocks.sort();
    // Sorted by start, so any overlap shows against the furthest end so far.
    let mut end = 0;
    for &(s, e) in &blocks {
        if s < end {
            bad.push(("OverlappingBlocks", None));
        }
        end = end.max(e);
    }
    // Then: what everything is.
    let mut unsure: Vec<(&'static str, Option<String>)> = vec![];
    for (s, a) in ast.iter().zip(&at) {
        let (base, opnd) = match &s.nucleus {
            StmtKind::Instr(i) => encode(i),
            StmtKind::Directive(Directive::Fill(PCOffset::Offset(v))) => (v.get(), Opnd::Num(0)),
            StmtKind::Directive(Directive::Fill(PCOffset::Label(l))) => (0, Opnd::Lab(16, l)),
            StmtKind::Directive(Directive::Blkw(n)) => {
                if let Some(a) = a {
                    for k in 0..n.get() as u32 {
                        m.image.insert((a + k) as u16, None);
                    }
                }
                continue;
            }
            StmtKind::Directive(Directive::Stringz(t)) => {
                if let Some(a) = a {
                    for (k, c) in t.bytes().chain([0]).enumerate() {
                        m.image.insert((a + k as u32) as u16, Some(c as u16));
                    }
                }
                continue;
            }
            _ => continue,
        };
        let word = match opnd {
            Opnd::Num(v) => base | v,
            Opnd::Lab(bits, l) => {
                let key = up(&l.name);
                match (m.labels.get(&key), a) {
                    (None, _) => {
                        bad.push(("CouldNotFindLabel", Some(key)));
                        0
                    }
                    (_, None) => 0,
                    (Some(x), _) if bits == 16 => x.addr,
                    (Some(x), Some(a)) => {
                        let off = x.addr.wrapping_sub((a + 1) as u16) as i16;
                        let fits = off >= -(1 << (bits - 1)) && off < 1 << (bits - 1);
                        if x.both {
                            unsure.push(("OffsetExternal", Some(key.clone())));
                        }
                        if x.external && !x.both {
                            bad.push(("OffsetExternal", Some(key)));
                        } else if !fits {
                            bad.push(("OffsetNewErr", Some(key)));
                        }
                        base | off as u16 & ((1 << bits) - 1)
                    }
                }
            }
        };
        if let Some(a) = a {
            m.image.insert(*a as u16, Some(word));
        }
    }
    for (k, l) in bad {
        m.broken.entry(k).or_default().extend(l);
    }
    for (k, l) in unsure {
        m.unsure.entry(k).or_default().extend(l);
    }
    m
}

// ---- What is judged ----

fn diff(got: &BTreeMap<u16, Option<u16>>, want: &BTreeMap<u16, Option<u16>>) -> Option<String> {
    let f = |v: Option<&Option<u16>>| match v {
        None => "not defined".to_string(),
        Some(None) => "reserved".to_string(),
        Some(Some(w)) => format!("x{w:04X}"),
    };
    want.keys()
        .chain(got.keys())
        .find(|a| got.get(a) != want.get(a))
        .map(|a| format!("x{a:04X} is {}, expected {}", f(got.get(a)), f(want.get(a))))
}
fn within(s: &ErrSpan, len: usize, what: &str) -> Res {
    for r in [s.first()].iter().chain(s.iter()) {
        ensure!(r.start <= r.end && r.end <= len, "span:outside", "{what} carries the span {r:?}, but the source has {len} bytes");
    }
    Ok(())
}
/// C26: the spans of an error from one source.
pub fn error_spans(e: &AsmErr, src: &str, m: &Model) -> Res {
    let k = kind_name(e.kind);
    let what = format!("the error {k}");
    within(&e.span, src.len(), &what)?;
    let Some(s) = e.span() else {
        return viol("span:none", format!("{what} carries no span"));
    };
    within(&s, src.len(), &what)?;
    if LABEL_KINDS.contains(&k) {
        let names: BTreeSet<&String> = m.broken.get(k).into_iter().chain(m.unsure.get(k)).flatten().collect();
        if names.is_empty() {
            // A wrong kind: C02's business.
            probe("label errors that name no violated condition (not judged here)");
            return Ok(());
        }
        for r in s.iter() {
            let text = src.get(r.clone()).map(up);
            ensure!(
                text.as_ref().is_some_and(|t| names.iter().any(|n| t.contains(n.as_str()))),
                "span:label",
                "{what} carries the span {r:?}, which covers {:?}; the labels concerned are {names:?}",
                src.get(r.clone())
            );
        }
        probe("label errors whose spans were read");
    }
    nontrivial();
    Ok(())
}
/// C02: acceptance.
fn accepted(m: &Model, r: &Result<ObjectFile, AsmErr>, how: &str) -> Res {
    match r {
        Ok(_) if !m.broken.is_empty() => viol("accepted", format!("assembling {how} succeeds, but the program breaks {:?}", m.broken)),
        Ok(_) => {
            probe("programs accepted");
            Ok(())
        }
        Err(e) => {
            let k = kind_name(e.kind);
            if m.broken.is_empty() && m.unsure.is_empty() {
                return viol("rejected", format!("assembling {how} fails with {k} ({e}), but the program is well-formed"));
            }
            ensure!(
                m.broken.contains_key(k) || m.unsure.contains_key(k),
                "wrong-kind",
                "assembling {how} fails with {k} ({e}), but the conditions violated are {:?}",
                m.broken
            );
            probe("programs rejected");
            nontrivial();
            Ok(())
        }
    }
}
fn respell(s: &str) -> String {
    s.chars().map(|c| if coin() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}
/// C23: every query of one program's table.
pub fn label_queries(sym: &SymbolTable, labels: &BTreeMap<String, Lab>, src: &str, how: &str) -> Res {
    let mut seen = BTreeMap::new();
    for (n, a, e) in sym.label_iter() {
        let key = up(n);
        ensure!(seen.insert(key.clone(), (a, e)).is_none(), "listing", "{how}: the label listing has {n} twice");
        let Some(l) = labels.get(&key) else {
            return viol("listing", format!("{how}: the label listing has {n}, which the program does not"));
        };
        ensure!(a == l.addr && (l.both || e == l.external), "listing", "{how}: {n} is listed at x{a:04X} (external: {e}), expected x{:04X} ({})", l.addr, l.external);
    }
    for (n, l) in labels {
        ensure!(seen.contains_key(n), "listing", "{how}: the label listing lacks {n}");
        // (Spellings with other letters may differ in length from their upper case.)
        if !n.is_ascii() || !src.get(l.first.clone()).is_some_and(|t| t.is_ascii()) {
            continue;
        }
        let q = match below(4) {
            0 => n.clone(),
            1 => n.to_ascii_lowercase(),
            2 => src[l.first.clone()].to_string(),
            _ => respell(n),
        };
        let got = sym.lookup_label(&q);
        ensure!(got == Some(l.addr), "address", "{how}: lookup_label({q:?}) gives {got:04x?}, the label is at x{:04X}", l.addr);
        let got = sym.get_label_source(&q);
        ensure!(
            got == Some(l.first.clone()),
            "source",
            "{how}: get_label_source({q:?}) gives {got:?} ({:?}), the label first occurs at {:?}",
            got.clone().and_then(|r| src.get(r)),
            l.first
        );
    }
    let at: BTreeSet<u16> = labels.values().map(|l| l.addr).collect();
    for a in at.iter().flat_map(|&a| [a, a.wrapping_add(1), a.wrapping_sub(1)]).chain([0, 0xFFFF]) {
        match sym.rev_lookup_label(a) {
            None => ensure!(!at.contains(&a), "reverse", "{how}: rev_lookup_label(x{a:04X}) gives nothing, though a label is there"),
            Some(n) => ensure!(
                labels.get(&up(n)).is_some_and(|l| l.addr == a),
                "reverse",
                "{how}: rev_lookup_label(x{a:04X}) gives {n}, which is not there"
            ),
        }
    }
    // Names the program does not have.
    for _ in 0..3 {
        let base = if labels.is_empty() { "A".into() } else { labels.keys().nth(below(labels.len() as u64) as usize).expect("nonempty").clone() };
        let q = match below(7) {
            0 => format!("{base}_"),
            1 => format!("_{base}"),
            2 => base[..base.char_indices().last().map_or(0, |c| c.0)].to_string(),
            3 => String::new(),
            4 => format!("{base} "),
            5 => pick(&["x3000", "ADD", "0", "R0", "nosuch", ".orig", "START"]).to_string(),
            _ => format!("{base}{base}"),
        };
        if labels.contains_key(&up(&q)) {
            continue;
        }
        ensure!(sym.lookup_label(&q).is_none(), "unknown", "{how}: lookup_label({q:?}) gives {:04x?}, but the program has no such label", sym.lookup_label(&q));
        ensure!(sym.get_label_source(&q).is_none(), "unknown", "{how}: get_label_source({q:?}) gives {:?}, but the program has no such label", sym.get_label_source(&q));
    }
    probe_n("labels looked up", labels.len() as u64);
    if !labels.is_empty() {
        nontrivial();
    }
    Ok(())
}
/// C24: the line table of one program.
pub fn line_queries(sym: &SymbolTable, lines: &BTreeMap<usize, u16>, nlines: usize, how: &str) -> Res {
    // All lines of small files, and those near statements of large ones.
    let mut ask: BTreeSet<usize> = lines.keys().flat_map(|&l| [l, l + 1, l.saturating_sub(1)]).collect();
    ask.extend(0..nlines.min(300));
    ask.extend([nlines, nlines + 1, nlines + 7, usize::MAX]);
    for l in ask {
        let got = sym.lookup_line(l);
        let want = lines.get(&l).copied();
        ensure!(got == want, "line", "{how}: lookup_line({l}) gives {got:04x?}, expected {want:04x?}");
    }
    for (&l, &a) in lines {
        let got = sym.rev_lookup_line(a);
        ensure!(got == Some(l), "reverse", "{how}: rev_lookup_line(x{a:04X}) gives {got:?}, its statement is on line {l}");
    }
    let mut seen = BTreeMap::new();
    for (l, a) in sym.line_iter() {
        if let Some(other) = seen.insert(a, l) {
            return viol("two-lines", format!("{how}: x{a:04X} is listed for lines {other} and {l}"));
        }
        ensure!(lines.get(&l) == Some(&a), "listing", "{how}: the line listing maps line {l} to x{a:04X}, expected {:04x?}", lines.get(&l));
    }
    ensure!(seen.len() == lines.len(), "listing", "{how}: the line listing has {} lines, expected {}", seen.len(), lines.len());
    let starts: BTreeSet<u16> = lines.values().copied().collect();
    for a in starts.iter().flat_map(|&a| [a.wrapping_add(1), a.wrapping_sub(1)]).chain([0, 0xFFFF, 0xFE00]) {
        if starts.contains(&a) {
            continue;
        }
        let got = sym.rev_lookup_line(a);
        ensure!(got.is_none(), "reverse", "{how}: rev_lookup_line(x{a:04X}) gives {got:?}, but no statement starts there");
    }
    probe_n("lines looked up", lines.len() as u64);
    if !lines.is_empty() {
        nontrivial();
    }
    Ok(())
}

// ---- The editor ----

/// Text that breaks one of the rules, or stops just short of it.
fn snippet(f: Option<&File>, serial: u64) -> String {
    let nl = if chance(1, 6) { "\r\n" } else { "\n" };
    let name = f.and_then(|f| {
        let all: Vec<&String> = f.defs.keys().chain(&f.exts).collect();
        (!all.is_empty()).then(|| all[below(all.len() as u64) as usize].clone())
    });
    let name = || name.clone().map(|n| respell(&n)).unwrap_or_else(|| "A".into());
    let ext = || f.and_then(|f| f.exts.iter().nth(below(f.exts.len().max(1) as u64) as usize)).cloned().unwrap_or_else(|| "EXTFN".into());
    let org = || match below(4) {
        0 => 0xF000u16.wrapping_add(below(0xC00) as u16),
        1 => below(0x200) as u16,
        _ => 0xA000u16.wrapping_add(below(0x4000) as u16),
    };
    let pc = |bits: u32| match (bits, below(6)) {
        (9, k) => ["BR", "LD R1,", "LDI R2,", "LEA R3,", "ST R4,", "NOP"][k as usize],
        _ => "JSR",
    };
    let lab = format!("S{serial}");
    let lines: Vec<String> = match below(23) {
        // A label at the end of an instruction's reach, backwards and forwards.
        k @ (0 | 1 | 2 | 3) => {
            let bits = if coin() { 9u32 } else { 11 };
            let h = 1u32 << (bits - 1);
            let back = k % 2 == 0;
            let n = (if back { h - 2 } else { h - 1 }) + below(5) as u32 - 2;
            let (l, op) = (format!("{lab} .fill {}", below(9)), format!("{} {lab}", pc(bits)));
            probe("labels near the end of a field's reach");
            let (a, b) = if back { (l, op) } else { (op, l) };
            vec![format!(".orig x{:04X}", org()), a, format!(".blkw {n}"), b, ".end".into()]
        }
        // A block around the start of the I/O region, or around the end of memory.
        4 | 5 => {
            let e = 0xFE00u32 + below(4) as u32 - 1;
            let n = 1 + below(6) as u32;
            vec![format!(".orig x{:04X}", e - n), format!(".blkw {n}"), if coin() { format!("{lab} .end") } else { ".end".into() }]
        }
        6 => {
            let s = 0xFFF0u32 + below(16) as u32;
            vec![format!(".orig x{s:04X}"), format!(".blkw {}", 0x10000 - s + below(3) as u32), ".end".into()]
        }
        7 => vec![format!(".orig x{:04X}", org()), format!(".blkw {}", pick(&[0xFFFFu32, 0x8000, 0x7FFF, 0xFE00, 0x10000 - 0x3000])), ".fill 1".into(), ".end".into()],
        8 => vec![format!(".orig x{:04X}", 0xFDF8 + below(8)), format!(".stringz \"{}\"", "abcdefghij".chars().take(below(11) as usize).collect::<String>()), ".end".into()],
        9 => vec![format!(".orig x{:04X}", pick(&[0xFE00u32, 0xFFFF, 0xFDFF])), if coin() { "HALT".into() } else { "".into() }, format!("{lab} .end")],
        // Nesting.
        10 => vec![format!(".orig x{:04X}", org())],
        11 => vec![".end".into()],
        12 => vec![format!(".orig x{:04X}", org()), "HALT".into(), format!(".orig x{:04X}", org()), ".end".into()],
        // Statements and labels that may be outside.
        13 => vec![pick(&["HALT", ".fill 3", ".blkw 2", ".stringz \"out\"", "ADD R0, R0, #1"]).into()],
        14 => vec![format!("{} {}", (0..=below(4)).map(|i| if i == 0 { name() } else { format!("{lab}_{i}") }).collect::<Vec<_>>().join(pick(&[" ", ": ", nl])), pick(&["HALT", ".end", ".orig x4000", ".external Q", ".fill 1", ".blkw 1"]))],
        // Labels.
        15 => vec![format!(".orig x{:04X}", org()), format!("{} HALT", name()), ".end".into()],
        16 => vec![format!("{} {}", pick(&["BR", "JSR", "LEA R0,", ".fill", "LD R7,"]), pick(&["NoSuchLabel", "nosuch", "_u"]))],
        17 => vec![format!("{} {}", pick(&["BR", "JSR", "LEA R0,", ".fill", "ST R7,", "NOP"]), if coin() { ext() } else { name() })],
        18 => vec![format!(".external {}", if coin() { name() } else { lab })],
        // At the same address, or one word off.
        19 => match f.and_then(|f| f.defs.iter().nth(below(f.defs.len().max(1) as u64) as usize)) {
            Some((n, a)) => vec![format!(".orig x{:04X}", a.wrapping_add(pick(&[0, 0, 1]))), format!("{} .end", respell(n))],
            None => vec!["; nothing".into()],
        },
        // Touching or overlapping an existing block.
        20 => match f.and_then(|f| f.blocks.get(below(f.blocks.len().max(1) as u64) as usize)) {
            Some(&(s, n)) => {
                let (a, l) = match below(5) {
                    0 => (s + n, 1),
                    1 => (s + n - 1, 1),
                    2 => (s.saturating_sub(2), 2),
                    3 => (s.saturating_sub(2), 3),
                    _ => (s.saturating_sub(3), n + 6),
                };
                vec![format!(".orig x{:04X}", a & 0xFFFF), format!(".blkw {l}"), ".end".into()]
            }
            None => vec![".orig x3000".into(), ".end".into()],
        },
        // Within reach only around the end of memory.
        21 => vec![".orig xFFFF".into(), format!("{lab} .end"), format!(".orig x{:04X}", below(0x120)), format!("{} {lab}", pc(9)), ".end".into()],
        // A label both external and at address 0.
        _ => vec![format!(".external {lab}"), ".orig x0000".into(), format!("{lab} {}", pick(&[".end", "HALT"])), if coin() { ".end".into() } else { "".into() }],
    };
    let mut s = String::new();
    for l in lines {
        s.push_str(&l);
        s.push_str(nl);
    }
    s
}
/// What a hand slips into a line.
fn slip() -> String {
    if chance(1, 150) {
        let n = pick(&[65_532usize, 65_533, 65_534, 65_535, 65_536, 70_000, 131_072]);
        probe("string literals of about 65535 bytes");
        return format!("{} \"{}{}\"{}", kw_any(".stringz"), "s".repeat(n), pick(&["", "\\n", "\\\\", "\\q", "\u{e9}"]), pick(&["", "\n"]));
    }
    pick(&[
        "\"", "\\", "\"\\", "\"abc\\\"", "\"abc\\\n", "\"abc\\\r\n", "\"\\\u{e9}\"", "\"\\\u{1F600}\"", "\"a\\q\"", "\"\\\\\\", "\\n", "\"\\0", "\u{e9}", "\u{1F600}", "x\u{e9}", "_\u{3b1}", "#", "#-", "##1", "-#1", "-", "--1", "x-", "x", "X", "xG",
        "x12345", "x-8001", "99999999999999999999999999", "65536", "-32769", "x0000000000000001", "R8", "R10", "R256", "r", "r\u{663}", "x\u{663}", "#\u{663}", "\u{663}", "1\u{e9}", ":", "::", ",", ",,", ";", "; \u{e9}", ".", "..", ".orig", ".ORIG x", ".stringz",
        ".stringz \"", ".fill", ".blkw 0", ".blkw -1", ".external", ".external 3", ".text", ".\u{e9}", "@", "$", "%", "(", "\0", "\u{7f}", "\u{a0}", "\u{2028}", "\u{feff}", "\u{85}", "\t", "\r", "\r\r\n", "\n\n", "\u{0b}", "\u{0c}", "'", "'a'", "A:", "A: B: C:", "A A A",
        "ADD R0, R0", "ADD R0, R0, #16", "ADD R0 R0 R0", "BRnzp", "BRpz A", "TRAP x100", "TRAP -1", "LD R0, #256", "JSR #-1025", "LDR R0, R1, #32", "JMP", "RET R7", "NOP NOP", "HALT HALT", "\u{149}", "Ga\u{17f}t .fill 0", "\u{130}\u{131}", "ADD\u{301}", "addd", "stra\u{df}e",
    ])
    .to_string()
}
fn kw_any(s: &str) -> String {
    if coin() {
        s.to_ascii_uppercase()
    } else {
        s.to_string()
    }
}
#[derive(Clone, Copy)]
struct Profile {
    /// Edits that break rules, slips at character level, and how many of each.
    snips: u64,
    slips: u64,
    /// How often the disk misbehaves, of 4 saves.
    faulty: u64,
    /// Whether it does so between characters too.
    bytes: bool,
}
fn edit(text: &mut String, f: Option<&File>, p: &Profile, serial: &mut u64) {
    let lines = |t: &str| -> Vec<String> { t.split_inclusive('\n').map(|s| s.to_string()).collect() };
    for _ in 0..if p.snips > 0 { below(p.snips + 1) } else { 0 } {
        span(|| {
            *serial += 1;
            let mut ls = lines(text);
            if chance(2, 3) {
                let s = span(|| snippet(f, *serial));
                if ls.last().is_some_and(|l| !l.ends_with('\n')) {
                    ls.last_mut().expect("a line").push('\n');
                }
                // A snippet that is no block mostly goes into one.
                let starts: Vec<usize> = ls.iter().enumerate().filter(|(_, l)| l.to_ascii_lowercase().contains(".orig")).map(|(i, _)| i + 1).collect();
                let into = !s.contains(".orig") && !starts.is_empty() && chance(2, 3);
                let at = match below(4) {
                    _ if into => starts[below(starts.len() as u64) as usize],
                    0 => 0,
                    1 => ls.len(),
                    2 => {
                        let ends: Vec<usize> = ls.iter().enumerate().filter(|(_, l)| l.to_ascii_lowercase().contains(".end")).map(|(i, _)| i + 1).collect();
                        if ends.is_empty() {
                            ls.len()
                        } else {
                            ends[below(ends.len() as u64) as usize]
                        }
                    }
                    _ => below(ls.len() as u64 + 1) as usize,
                };
                ls.insert(at, s);
            } else if !ls.is_empty() {
                let n = ls.len() as u64;
                let i = below(n) as usize;
                match below(4) {
                    0 => {
                        ls.remove(i);
                    }
                    1 => {
                        let l = ls[i].clone();
                        ls.insert(below(n + 1) as usize, l);
                    }
                    2 => ls.swap(i, below(n) as usize),
                    _ => {
                        let l = ls.remove(i);
                        ls.insert(below(n) as usize, l);
                    }
                }
            }
            *text = ls.concat();
        });
    }
    for _ in 0..if p.slips > 0 { below(p.slips + 1) } else { 0 } {
        span(|| {
            let cuts: Vec<usize> = text.char_indices().map(|c| c.0).chain([text.len()]).collect();
            let i = cuts[below(cuts.len() as u64) as usize];
            match below(4) {
                0 => {
                    // A few characters go.
                    let j = cuts[(cuts.partition_point(|&c| c < i) + 1 + below(6) as usize).min(cuts.len() - 1)];
                    text.replace_range(i..j, "");
                }
                1 => {
                    let s = slip();
                    text.insert_str(i, &s);
                }
                2 => {
                    // At the end of a line.
                    let at = text[i..].find('\n').map_or(text.len(), |k| i + k);
                    let s = slip();
                    text.insert_str(at, &s);
                }
                _ => {
                    // Instead of a word.
                    let s = slip();
                    let word = |c: char| c.is_alphanumeric() || c == '_' || c == '#';
                    let a = text[..i].rfind(|c| !word(c)).map_or(0, |k| k + text[k..].chars().next().expect("a character").len_utf8());
                    let b = text[i..].find(|c| !word(c)).map_or(text.len(), |k| i + k);
                    text.replace_range(a..b, &s);
                }
            }
        });
    }
}
/// What is on the disk after a save.
fn save(old: &[u8], new: &[u8], p: &Profile) -> Vec<u8> {
    if !chance(p.faulty, 4) {
        return new.to_vec();
    }
    let by_line = !p.bytes || coin();
    let pieces = |b: &[u8]| -> Vec<Vec<u8>> {
        if by_line {
            b.split_inclusive(|&c| c == b'\n').map(|s| s.to_vec()).collect()
        } else {
            b.chunks(32).map(|s| s.to_vec()).collect()
        }
    };
    let (o, mut n) = (pieces(old), pieces(new));
    let len = n.len() as u64;
    if len == 0 {
        return vec![];
    }
    match below(if p.bytes { 9 } else { 6 }) {
        0 => {
            n.truncate(below(len + 1) as usize);
            fault("torn save (file cut short)");
        }
        1 => {
            let k = below(len + 1) as usize;
            n.truncate(k);
            n.extend(o.into_iter().skip(k));
            fault("torn save (the rest is the previous version)");
        }
        2 => {
            for (i, x) in n.iter_mut().enumerate() {
                if chance(1, 4) {
                    *x = o.get(i).cloned().unwrap_or_default();
                }
            }
            fault("lost writes (parts are the previous version)");
        }
        3 => {
            for _ in 0..=below(2) {
                let i = below(n.len() as u64) as usize;
                n.remove(i);
                if n.is_empty() {
                    break;
                }
            }
            fault("lost pieces");
        }
        4 => {
            let i = below(len) as usize;
            let x = n[i].clone();
            n.insert(below(len + 1) as usize, x);
            fault("duplicated piece");
        }
        5 => {
            n.swap(below(len) as usize, below(len) as usize);
            fault("reordered pieces");
        }
        6 => {
            let i = below(len) as usize;
            n[i].fill(0);
            fault("unwritten piece (zeros)");
        }
        7 => {
            for _ in 0..=below(3) {
                let i = below(len) as usize;
                let k = below(n[i].len().max(1) as u64) as usize;
                if let Some(b) = n[i].get_mut(k) {
                    *b ^= 1 << below(8);
                }
            }
            fault("bit flips");
        }
        _ => {
            let i = below(len) as usize;
            let k = below(n[i].len().max(1) as u64) as usize;
            n[i].truncate(k);
            fault("short write");
        }
    }
    n.concat()
}

// ---- The runs ----

#[derive(Clone, Copy, PartialEq)]
enum What {
    Image,
    Accept,
    Stmts,
    Tokens,
    Print,
    Places,
    Parse,
    Spans,
    Labels,
    Lines,
}
/// C05: what is written is what is read, or is refused.
fn tokens_denote(src: &str) -> Res {
    let got = parse_ast(src);
    match (reading(src), got) {
        (Reading::Stmts(want), Ok(got)) => {
            let bare = |s: &[Stmt]| s.iter().map(bare).collect::<Vec<_>>();
            if let Some(d) = differ(&bare(&got), &bare(&want)) {
                return viol("value", d);
            }
            probe("texts whose values all fit");
            nontrivial();
        }
        (Reading::Stmts(_), Err(e)) => {
            let s = e.span().map(|s| s.first());
            return viol("rejected", format!("every value fits its field, but the text does not parse: {e} at {s:?} ({:?})", s.clone().and_then(|s| src.get(s))));
        }
        (Reading::Bad, Ok(_)) => return viol("accepted", format!("a value or a register is out of range, but the text parses: {src:?}")),
        (Reading::Bad, Err(_)) => {
            probe("texts with a value out of range");
            nontrivial();
        }
        (Reading::Unsure, _) => probe("texts that may be outside the grammar (not judged)"),
    }
    Ok(())
}
/// C36: every statement, printed and parsed.
fn print_again(src: &str) -> Res {
    let Ok(Ok(ast)) = guarded(|| parse_ast(src)) else {
        probe("texts that do not parse");
        return Ok(());
    };
    let plain = |s: &Stmt| match &s.nucleus {
        StmtKind::Directive(Directive::Stringz(t)) => t.chars().all(|c| matches!(c, ' '..='~' | '\t' | '\n' | '\r' | '\0')),
        _ => true,
    };
    let again = |text: &str, want: &[Stmt], what: &str| -> Res {
        match parse_ast(text) {
            Err(e) => viol("unparsable", format!("{what} prints as {text:?}, which does not parse: {e}")),
            Ok(got) => match differ(&got.iter().map(bare).collect::<Vec<_>>(), want) {
                Some(d) => viol("changed", format!("{what} prints as {text:?}, and parsed again, {d}")),
                None => Ok(()),
            },
        }
    };
    let mut all = String::new();
    let mut kept = vec![];
    for s in ast.iter().filter(|s| plain(s)) {
        let b = bare(s);
        let t = s.to_string();
        again(&t, std::slice::from_ref(&b), "a statement")?;
        all.push_str(&t);
        all.push('\n');
        kept.push(b);
        nontrivial();
    }
    if kept.len() < ast.len() {
        probe("statements with other characters in strings (not judged)");
    }
    probe_n("statements printed and parsed again", kept.len() as u64);
    again(&all, &kept, "the program")
}
/// C25: lines and positions.
fn places_of(info: &SourceInfo, src: &str, how: &str) -> Res {
    let starts: Vec<usize> = [0].into_iter().chain(src.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1)).collect();
    ensure!(info.source() == src, "source", "{how}: the source is another");
    ensure!(info.count_lines() == starts.len(), "count", "{how}: {} lines, expected {}", info.count_lines(), starts.len());
    let whole = starts.len() < 2000;
    for (i, &s) in starts.iter().enumerate() {
        if !whole && i % 97 != 0 && i + 3 < starts.len() {
            continue;
        }
        let raw = &src[s..starts.get(i + 1).copied().unwrap_or(src.len())];
        let text = raw.trim();
        let lead = raw.len() - raw.trim_start().len();
        let (sp, t) = (info.line_span(i), info.read_line(i));
        ensure!(t == Some(text), "text", "{how}: line {i} reads {t:?}, expected {text:?}");
        let ok = match &sp {
            // (Where in a blank line its nothing lies, nobody says.)
            Some(r) if text.is_empty() => r.is_empty() && r.start >= s && r.end <= s + raw.len(),
            Some(r) => *r == (s + lead..s + lead + text.len()),
            None => false,
        };
        ensure!(ok, "span", "{how}: line {i} spans {sp:?}, its text {text:?} is at {}", s + lead);
    }
    for i in [starts.len(), starts.len() + 1, starts.len() + below(5) as usize, usize::MAX] {
        ensure!(info.line_span(i).is_none() && info.read_line(i).is_none(), "beyond", "{how}: there is a line {i} of {}", starts.len());
    }
    let mut at: Vec<usize> = vec![0, src.len(), src.len() + 1, src.len() + 1 + below(100) as usize, src.len().saturating_sub(1), src.len() + 0x1_0000];
    for _ in 0..12 {
        at.push(below(src.len() as u64 + 3) as usize);
        let s = starts[below(starts.len() as u64) as usize];
        at.extend([s, s.saturating_sub(1), s + 1]);
    }
    for i in at {
        let line = starts.partition_point(|s| *s <= i.min(src.len())) - 1;
        let want = (line, i - starts[line]);
        let got = info.get_pos_pair(i);
        ensure!(got == want, "position", "{how}: index {i} of {} is at {got:?}, expected {want:?}", src.len());
        if i > src.len() {
            probe("positions past the end");
        }
    }
    probe("texts whose positions were queried");
    nontrivial();
    Ok(())
}
fn places(src: &str) -> Res {
    places_of(&SourceInfo::from(src), src, "the text")?;
    let Ok(Ok(ast)) = guarded(|| parse_ast(src)) else { return Ok(()) };
    let Ok(Ok(o)) = guarded(|| assemble_debug(ast, src)) else { return Ok(()) };
    let info = |o: &ObjectFile| o.symbol_table().and_then(|s| s.source_info()).cloned();
    if let Some(i) = info(&o) {
        places_of(&i, src, "the text in the object file")?;
    }
    if let Some(o) = BinaryFormat::deserialize(&BinaryFormat::serialize(&o)) {
        if let Some(i) = info(&o) {
            places_of(&i, src, "the text in the stored object file")?;
        }
    }
    let other = pick(&[".orig xFD00\n HALT\n.end", ".orig xFD00\r\n HALT\r\n.end\r\n\r\n", ".external zz_q", "", "\n\n"]);
    let Ok(Ok(p)) = guarded(|| assemble_debug(parse_ast(other).expect("a text that parses"), other)) else { return Ok(()) };
    let (a, b) = if coin() { (o, p) } else { (p, o) };
    if let Ok(Ok(l)) = guarded(|| ObjectFile::link(a, b)) {
        if let Some(i) = info(&l) {
            let all = i.source().to_string();
            places_of(&i, &all, "the text of a linked object file")?;
        }
    }
    Ok(())
}
/// A build of what is on the disk.
fn build(src: &str, w: What, f: Option<&File>, known: Option<&[Stmt]>) -> Res {
    tick(1);
    mix_bytes(src.as_bytes());
    trace(|| format!("build of {src:?}"));
    match w {
        What::Tokens => return tokens_denote(src),
        What::Print => return print_again(src),
        What::Places => return places(src),
        _ => {}
    }
    let sure = match w {
        What::Parse => None,
        _ => read(src),
    };
    if let (Some(k), Some(s)) = (known, &sure) {
        // The harness against itself: its printer and its reader.
        if let Some(d) = differ(s, k) {
            panic!("harness: the reference reader misreads the printer: {d}");
        }
    }
    let sure = known.map(|k| k.to_vec()).or(sure);
    if w == What::Stmts {
        let Some(want) = &sure else {
            probe("texts that may be outside the grammar (not judged)");
            return Ok(());
        };
        match parse_ast(src) {
            Ok(got) => {
                if let Some(d) = differ(&got, want) {
                    return viol("statements", d);
                }
                probe_n("statements compared", want.len() as u64);
                nontrivial();
                return Ok(());
            }
            Err(e) => return viol("statements:rejected", format!("the text does not parse ({e}), but it is in the grammar: {} statements", want.len())),
        }
    }
    if w == What::Parse {
        // A panic is the violation.
        match parse_ast(src) {
            Ok(_) => probe("texts parsed"),
            Err(e) => {
                probe("texts rejected by the parser");
                let Some(s) = e.span() else {
                    return viol("span:none", format!("the parse error \"{e}\" carries no span"));
                };
                within(&s, src.len(), &format!("the parse error \"{e}\""))?;
                nontrivial();
            }
        }
        return Ok(());
    }
    let Ok(Ok(ast)) = guarded(|| parse_ast(src)) else {
        if f.is_some() {
            probe("well-formed texts that do not parse (not judged here)");
        }
        probe("texts that do not parse");
        return Ok(());
    };
    // The statements as the reference reads them, where it can.
    let m = match &sure {
        Some(s) => {
            probe("programs judged from the text alone");
            model(s, src)
        }
        None => {
            probe("programs judged from the parsed statements");
            model(&ast, src)
        }
    };
    state(m.broken.keys().fold(0u64, |h, k| h.rotate_left(9) ^ k.len() as u64 ^ (k.as_bytes()[0] as u64) << 8) | (m.labels.len() as u64) << 56);
    if m.broken.len() == 1 {
        probe(match *m.broken.keys().next().expect("one") {
            "UndetAddrLabel" => "programs breaking one rule: label outside",
            "UndetAddrStmt" => "programs breaking one rule: statement outside",
            "UnclosedOrig" => "programs breaking one rule: unclosed block",
            "UnopenedOrig" => "programs breaking one rule: unopened block",
            "OverlappingLabels" => "programs breaking one rule: label at two addresses",
            "BlockInIO" => "programs breaking one rule: block in the I/O region",
            "OverlappingBlocks" => "programs breaking one rule: overlapping blocks",
            "OffsetNewErr" => "programs breaking one rule: label out of reach",
            "OffsetExternal" => "programs breaking one rule: external as offset",
            "CouldNotFindLabel" => "programs breaking one rule: undefined label",
            _ => "programs breaking one rule: other",
        });
    }
    let run = |debug: bool| {
        let a = ast.clone();
        if debug {
            assemble_debug(a, src)
        } else {
            assemble(a)
        }
    };
    for debug in [false, true] {
        let how = if debug { "with debug symbols" } else { "without debug symbols" };
        let r = if w == What::Accept { Ok(run(debug)) } else { guarded(|| run(debug)) };
        let Ok(r) = r else {
            probe("builds that panicked (not judged here)");
            continue;
        };
        match w {
            What::Accept => {
                accepted(&m, &r, how)?;
                if let (Some(f), Err(e)) = (f, &r) {
                    // The parser may have misled the reference.
                    if !self_overlap(f) {
                        return viol("rejected", format!("assembling {how} fails with {e}, but the program is well-formed"));
                    }
                }
                nontrivial();
            }
            What::Spans => {
                if let Err(e) = &r {
                    error_spans(e, src, &m)?;
                }
            }
            What::Image => {
                let Ok(o) = &r else { continue };
                if !m.broken.is_empty() {
                    // Accepted wrongly: C02's business.
                    continue;
                }
                if let Some(d) = diff(&image_of(o)?, &m.image) {
                    return viol("image", format!("assembled {how}: {d}"));
                }
                if let Some(f) = f {
                    if let Some(d) = diff(&image_of(o)?, &f.image) {
                        return viol("image", format!("assembled {how}: {d} (as written)"));
                    }
                }
                if let Some(sym) = o.symbol_table() {
                    for (n, l) in &m.labels {
                        ensure!(sym.lookup_label(n) == Some(l.addr), "label", "assembled {how}: {n} is at {:04x?}, expected x{:04X}", sym.lookup_label(n), l.addr);
                    }
                }
                nontrivial();
                probe_n("words compared", m.image.len() as u64);
            }
            What::Labels | What::Lines => {
                if r.is_err() || !m.broken.is_empty() {
                    continue;
                }
                let o = r.expect("checked");
                let first = guarded(|| SymbolTable::new(&ast, debug.then_some(src)));
                let Ok(Ok(first)) = first else { continue };
                for (sym, who) in [(Some(&first), "of the first pass"), (o.symbol_table(), "of the object file")] {
                    let Some(sym) = sym else { continue };
                    let how = format!("the table {who}, {how}");
                    if w == What::Labels {
                        label_queries(sym, &m.labels, src, &how)?;
                    } else if debug {
                        line_queries(sym, &m.lines, src.matches('\n').count() + 1, &how)?;
                    } else {
                        ensure!(sym.line_iter().next().is_none() && sym.lookup_line(0).is_none(), "line", "{how}: there are lines, but no debug symbols");
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}
/// A tool rewrites the file: same statements, other case, spacing, comments,
/// line ends, notations.
fn other_layout(text: &mut String, w: What) -> Res {
    let Some(was) = read(text) else {
        probe("texts the tools leave alone");
        return Ok(());
    };
    let (new, want) = relayout(&was);
    probe("files rewritten in another layout");
    sched(new.len() as u64);
    build(&new, w, None, Some(&want))?;
    if w == What::Stmts {
        // The image and the labels stay.
        let asm = |t: &str| parse_ast(t).ok().and_then(|a| guarded(|| assemble_debug(a, t)).ok());
        match (asm(text), asm(&new)) {
            (Some(Ok(a)), Some(Ok(b))) => {
                if let Some(d) = diff(&image_of(&b)?, &image_of(&a)?) {
                    return viol("layout:image", format!("the same statements in another layout give another image: {d}"));
                }
                let labels = |o: &ObjectFile| -> BTreeMap<String, (u16, bool)> { o.symbol_table().map(|s| s.label_iter().map(|(n, a, e)| (up(n), (a, e))).collect()).unwrap_or_default() };
                ensure!(labels(&a) == labels(&b), "layout:labels", "the same statements in another layout give other labels: {:x?} and {:x?}", labels(&a), labels(&b));
                probe("images compared across layouts");
            }
            (Some(a), Some(b)) => ensure!(a.is_ok() == b.is_ok(), "layout:acceptance", "the same statements are accepted in one layout only ({} and {})", a.is_ok(), b.is_ok()),
            _ => {}
        }
    }
    *text = new;
    Ok(())
}
fn history(w: What, p: Profile) -> Res {
    let relay = match w {
        What::Stmts => chance(5, 6),
        What::Image | What::Accept => chance(1, 3),
        What::Labels | What::Lines | What::Spans => chance(1, 6),
        _ => false,
    };
    let o = Opts { files: 1, conflicts: w == What::Accept && chance(1, 4), unicode: chance(1, if w == What::Labels { 8 } else { 3 }), always_debug: true, huge: chance(1, 60) };
    let f = world(&o).into_iter().next().expect("one file");
    let mut text = f.src.clone();
    let mut serial = 0;
    let mut disk: Vec<u8> = vec![];
    if coin() || w == What::Image {
        disk = text.clone().into_bytes();
        sched(1);
        build(&text, w, (!self_overlap(&f)).then_some(&f), None)?;
    }
    for _ in 0..range(1, 4) {
        span(|| -> Res {
            edit(&mut text, Some(&f), &p, &mut serial);
            let was = text.clone();
            match w {
                What::Tokens => {
                    for _ in 0..1 + below(3) / 2 {
                        if span(|| renumber(&mut text)) {
                            probe("numbers and registers rewritten");
                        }
                    }
                }
                What::Print if chance(1, 2) => {
                    if let Ok(Ok(ast)) = guarded(|| parse_ast(&text)) {
                        // The formatter: one statement to a line, as printed.
                        text = ast.iter().map(|s| format!("{}{s}\n", pick(&["", "    ", "\t"]))).collect();
                        probe("files rewritten by the formatter");
                        build(&text, w, None, None)?;
                    }
                }
                _ => {}
            }
            disk = save(&disk, text.as_bytes(), &p);
            sched(disk.len() as u64);
            let back = String::from_utf8_lossy(&disk).into_owned();
            build(&back, w, None, None)?;
            if relay && chance(2, 3) {
                other_layout(&mut text, w)?;
            }
            if w == What::Tokens && chance(3, 4) {
                trace(|| "undo".into());
                text = was;
            } else if chance(1, 3) {
                trace(|| "the editor reads the file back".into());
                text = back;
            }
            Ok(())
        })?;
    }
    Ok(())
}

pub fn c01() -> Res {
    history(What::Image, Profile { snips: 2, slips: 0, faulty: 1, bytes: false })
}
pub fn c02() -> Res {
    let p = match below(4) {
        0 => Profile { snips: 1, slips: 0, faulty: 0, bytes: false },
        1 => Profile { snips: 3, slips: 0, faulty: 2, bytes: false },
        2 => Profile { snips: 2, slips: 2, faulty: 2, bytes: true },
        _ => Profile { snips: 1, slips: 0, faulty: 3, bytes: false },
    };
    history(What::Accept, p)
}
pub fn c03() -> Res {
    let p = match below(4) {
        0 => Profile { snips: 2, slips: 0, faulty: 0, bytes: false },
        1 => Profile { snips: 1, slips: 2, faulty: 1, bytes: true },
        2 => Profile { snips: 1, slips: 1, faulty: 2, bytes: false },
        _ => Profile { snips: 2, slips: 0, faulty: 2, bytes: false },
    };
    history(What::Stmts, p)
}
pub fn c05() -> Res {
    let p = match below(3) {
        0 => Profile { snips: 0, slips: 0, faulty: 0, bytes: false },
        1 => Profile { snips: 1, slips: 0, faulty: 2, bytes: true },
        _ => Profile { snips: 1, slips: 0, faulty: 1, bytes: false },
    };
    history(What::Tokens, p)
}
pub fn c25() -> Res {
    let p = match below(3) {
        0 => Profile { snips: 1, slips: 1, faulty: 1, bytes: false },
        1 => Profile { snips: 1, slips: 4, faulty: 2, bytes: true },
        _ => Profile { snips: 1, slips: 0, faulty: 2, bytes: true },
    };
    history(What::Places, p)
}
pub fn c36() -> Res {
    let p = match below(3) {
        0 => Profile { snips: 2, slips: 0, faulty: 0, bytes: false },
        1 => Profile { snips: 1, slips: 2, faulty: 1, bytes: true },
        _ => Profile { snips: 2, slips: 0, faulty: 2, bytes: true },
    };
    history(What::Print, p)
}
pub fn c04() -> Res {
    let p = match below(4) {
        0 => Profile { snips: 0, slips: 1, faulty: 0, bytes: true },
        1 => Profile { snips: 1, slips: 4, faulty: 2, bytes: true },
        2 => Profile { snips: 0, slips: 12, faulty: 3, bytes: true },
        _ => Profile { snips: 1, slips: 1, faulty: 4, bytes: true },
    };
    history(What::Parse, p)
}
pub fn source_spans() -> Res {
    let p = if coin() { Profile { snips: 2, slips: 0, faulty: 2, bytes: false } } else { Profile { snips: 2, slips: 2, faulty: 2, bytes: true } };
    history(What::Spans, p)
}
pub fn source_labels() -> Res {
    history(What::Labels, Profile { snips: 1, slips: 0, faulty: 1, bytes: false })
}
pub fn source_lines() -> Res {
    history(What::Lines, Profile { snips: 1, slips: if chance(1, 4) { 1 } else { 0 }, faulty: 1, bytes: false })
}
