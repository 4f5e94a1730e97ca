//! Generator of assembly files with an independent model of what each file
//! defines: its words, labels, relocations and source lines.
use crate::ctx::*;
use std::collections::{BTreeMap, BTreeSet};

/// Names shared by all files of a world; spelled with random case.
pub const NAMES: &[&str] = &["A", "Loop", "data_1", "Q", "helper", "EXTFN", "zz9", "_t", "Longer_label_name_0123456789", "main"];
/// Names with non-ASCII letters.
pub const UNICODE_NAMES: &[&str] = &["caf\u{e9}", "_\u{3b1}\u{3b2}", "N\u{e4}h\u{e9}r", "Ga\u{17f}t", "Ma\u{df}", "Z\u{149}x"];

#[derive(Clone, Debug)]
pub enum Kind {
    FillNum(u16),
    FillLab(String),
    Blkw(u16),
    Stringz(String),
    Instr(String, u16),
    /// Mnemonic, base word, offset bits, label.
    PcRel(String, u16, u32, String),
    /// Declares an external; occupies nothing.
    External(String),
}
impl Kind {
    fn len(&self) -> u32 {
        match self {
            Kind::Blkw(n) => *n as u32,
            Kind::Stringz(s) => s.len() as u32 + 1,
            Kind::External(_) => 0,
            _ => 1,
        }
    }
}
#[derive(Clone, Debug)]
struct Item {
    labels: Vec<String>,
    kind: Kind,
}
#[derive(Clone, Debug)]
struct Block {
    start: u32,
    items: Vec<Item>,
    end_labels: Vec<String>,
}
impl Block {
    fn len(&self) -> u32 {
        self.items.iter().map(|i| i.kind.len()).sum()
    }
}

#[derive(Clone, Debug, Default)]
pub struct File {
    pub src: String,
    pub debug: bool,
    /// Every defined address; external references hold `None` in `pending`.
    pub image: BTreeMap<u16, Option<u16>>,
    /// Non-empty blocks as (start, length).
    pub blocks: Vec<(u32, u32)>,
    /// Labels defined by this file.
    pub defs: BTreeMap<String, u16>,
    /// Labels declared external.
    pub exts: BTreeSet<String>,
    /// Words that refer to external labels.
    pub rels: BTreeMap<u16, String>,
    /// The line text of every statement's first address.
    pub lines: BTreeMap<u16, String>,
    /// The line number of every statement's first address.
    pub line_no: BTreeMap<u16, usize>,
    /// Where each label is first defined or declared (bytes).
    pub pos: BTreeMap<String, (usize, usize)>,
    pub nlines: usize,
}

#[derive(Clone, Copy)]
pub struct Opts {
    pub files: u64,
    /// Overlapping blocks and conflicting labels may occur.
    pub conflicts: bool,
    pub unicode: bool,
    /// `.debug` per file: always, or drawn.
    pub always_debug: bool,
    /// Rare very large content.
    pub huge: bool,
}

fn up(s: &str) -> String {
    s.to_uppercase()
}
fn spell(s: &str) -> String {
    match below(4) {
        0 => s.to_string(),
        1 => s.to_ascii_uppercase(),
        2 => s.to_ascii_lowercase(),
        _ => s.chars().map(|c| if coin() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}
fn kw(s: &str) -> String {
    match below(3) {
        0 => s.to_string(),
        1 => s.to_ascii_uppercase(),
        _ => s.chars().map(|c| if coin() { c.to_ascii_uppercase() } else { c }).collect(),
    }
}
fn num(v: u16) -> String {
    match below(5) {
        0 => format!("x{v:04X}"),
        1 => format!("{v}"),
        2 => format!("#{v}"),
        3 => format!("X{v:x}"),
        _ => format!("#{}", v as i16),
    }
}
fn unum(v: u16) -> String {
    match below(3) {
        0 => format!("x{v:04X}"),
        1 => format!("{v}"),
        _ => format!("#{v}"),
    }
}

pub fn comment() -> String {
    let mut s = String::from(";");
    for _ in 0..below(4) {
        let p = pick(&[
            " note", "\\", "\\n", "\\u{41}", "\"", "'", "\t", " | ", "====", "????", "# hash", ".TEXT", ".DEBUG", "\u{e9}\u{4e2d}", "\u{1F600}", "\0", "\u{7f}",
            "\u{85}", "\u{2028}", "\u{0c}", "\u{0b}", "\r", "\\r", "\\\\", "{}", "%s", ";", ":", "  ", "\u{200b}", "\u{feff}", "\\x41", "\\'", "$", "0", "7", "12", "ff", "\u{1}", "\u{1b}", "\u{8}", "\u{301}", "\u{e000}", "\u{202e}",
        ]);
        s.push_str(p);
    }
    s
}
fn string_text() -> (String, String) {
    // (source spelling, value)
    let (mut t, mut v) = (String::new(), String::new());
    for _ in 0..below(6) {
        let (a, b) = pick(&[
            ("a", "a"),
            ("Hi there", "Hi there"),
            ("\\n", "\n"),
            ("\\t", "\t"),
            ("\\\\", "\\"),
            ("\\\"", "\""),
            ("\\0", "\0"),
            ("\\r", "\r"),
            (";no comment", ";no comment"),
            ("'", "'"),
            ("\u{e9}", "\u{e9}"),
            (" | ", " | "),
            ("0", "0"),
            ("7", "7"),
            ("12", "12"),
            ("\0", "\0"),
            ("\u{1b}", "\u{1b}"),
            ("\u{7f}", "\u{7f}"),
            ("\u{1F600}", "\u{1F600}"),
        ]);
        t.push_str(a);
        v.push_str(b);
    }
    (t, v)
}

/// A signed operand that is not a label.
fn snum(v: i16) -> String {
    match below(5) {
        0 => format!("#{v}"),
        1 => format!("{v}"),
        2 if v < 0 => format!("x-{:X}", v.unsigned_abs()),
        2 => format!("X{v:x}"),
        3 if v >= 0 => format!("x{v:03X}"),
        _ => format!("#{v}"),
    }
}
/// A value of a signed field, often at one of its ends.
fn field(bits: u32) -> i16 {
    let h = 1i16 << (bits - 1);
    match below(6) {
        0 => -h,
        1 => h - 1,
        2 => -1,
        3 => 0,
        _ => below(1 << bits) as i16 - h,
    }
}
pub const BRS: &[(&str, u16)] = &[("br", 7), ("brn", 4), ("brz", 2), ("brp", 1), ("brnz", 6), ("brnp", 5), ("brzp", 3), ("nop", 0)];
/// An instruction without labels, and its encoding.
pub fn instr() -> (String, u16) {
    let (d, s, t) = (below(8) as u16, below(8) as u16, below(8) as u16);
    let r = |n: u16| format!("{}{n}", if coin() { 'R' } else { 'r' });
    let m = |v: i16, bits: u32| v as u16 & ((1 << bits) - 1);
    let c = pick(&[", ", ",", " , ", ",\t"]);
    match below(16) {
        0 => {
            let i = field(5);
            (format!("{} {}{c}{}{c}{}", kw("add"), r(d), r(s), snum(i)), 0x1020 | d << 9 | s << 6 | m(i, 5))
        }
        1 => (format!("{} {}{c}{}{c}{}", kw("and"), r(d), r(s), r(t)), 0x5000 | d << 9 | s << 6 | t),
        2 => (format!("{} {}{c}{}", kw("not"), r(d), r(s)), 0x903F | d << 9 | s << 6),
        3 => pick(&[("getc", 0x20u16), ("out", 0x21), ("putc", 0x21), ("puts", 0x22), ("in", 0x23), ("putsp", 0x24), ("halt", 0x25)]).pipe(|(n, v)| (kw(n), 0xF000 | v)),
        4 => (kw("ret"), 0xC1C0),
        5 => {
            let v = pick(&[0u16, 255, 0x20, 0x25, below(256) as u16]);
            (format!("{} {}", kw("trap"), if coin() { format!("x{v:02X}") } else { snum(v as i16) }), 0xF000 | v)
        }
        6 => {
            let o = field(6);
            let (n, w) = pick(&[("ldr", 0x6000u16), ("str", 0x7000)]);
            (format!("{} {}{c}{}{c}{}", kw(n), r(d), r(s), snum(o)), w | d << 9 | s << 6 | m(o, 6))
        }
        7 => (kw("rti"), 0x8000),
        8 => {
            let i = field(5);
            (format!("{} {}{c}{}{c}{}", kw("and"), r(d), r(s), snum(i)), 0x5020 | d << 9 | s << 6 | m(i, 5))
        }
        9 => (format!("{} {}{c}{}{c}{}", kw("add"), r(d), r(s), r(t)), 0x1000 | d << 9 | s << 6 | t),
        10 => (format!("{} {}", kw("jmp"), r(s)), 0xC000 | s << 6),
        11 => (format!("{} {}", kw("jsrr"), r(s)), 0x4000 | s << 6),
        12 => {
            let o = field(11);
            (format!("{} {}", kw("jsr"), snum(o)), 0x4800 | m(o, 11))
        }
        13 => {
            let o = field(9);
            let (n, cc) = pick(BRS);
            (format!("{} {}", kw(n), snum(o)), cc << 9 | m(o, 9))
        }
        14 => {
            let o = field(9);
            let (n, w) = pick(&[("ld", 0x2000u16), ("ldi", 0xA000), ("lea", 0xE000), ("st", 0x3000), ("sti", 0xB000)]);
            (format!("{} {}{c}{}", kw(n), r(d), snum(o)), w | d << 9 | m(o, 9))
        }
        _ => (kw("nop"), 0),
    }
}
trait Pipe: Sized {
    fn pipe<R>(self, f: impl FnOnce(Self) -> R) -> R {
        f(self)
    }
}
impl<T> Pipe for T {}

fn item(max: u32) -> Option<Kind> {
    let k = match weighted(&[5, 4, 3, 2]) {
        0 => Kind::FillNum(if coin() { word() } else { below(4) as u16 }),
        1 => {
            let (t, w) = instr();
            Kind::Instr(t, w)
        }
        2 => Kind::Blkw(1 + below(6) as u16),
        _ => {
            let (t, v) = string_text();
            // The spelling is recomputed when the text is written.
            let _ = t;
            Kind::Stringz(v)
        }
    };
    (k.len() <= max).then_some(k)
}
fn spell_string(v: &str) -> String {
    let mut t = String::new();
    for c in v.chars() {
        match c {
            '\n' => t.push_str("\\n"),
            '\r' => t.push_str("\\r"),
            '\0' if coin() => t.push_str("\\0"),
            '\\' => t.push_str("\\\\"),
            '"' => t.push_str("\\\""),
            '\t' if coin() => t.push_str("\\t"),
            c => t.push(c),
        }
    }
    t
}

/// A set of files that may be linked with each other.
pub fn world(o: &Opts) -> Vec<File> {
    let n = o.files as usize;
    let mut layout: Vec<Vec<Block>> = vec![vec![]; n];
    // Where the next block may start without overlapping; a drawn gap follows.
    let mut at: u32 = match below(8) {
        0 => 0,
        1 => 0x2FFE,
        2 => 0x0200,
        3 => pick(&[0x7FFC, 0x7FF8, 0x00FC, 0xFCF8]),
        4 => below(0xFE00) as u32,
        _ => 0x3000,
    };
    let many = o.huge && chance(1, if o.conflicts { 15 } else { 60 });
    let nblocks = if many { range(256, 300) } else { range(1, 2 * o.files + 1) };
    if many {
        probe("worlds of hundreds of blocks");
    }
    // Hundreds of blocks, in two files mostly, that conflict at the far end only.
    let tail = many && coin();
    let mut spans: Vec<(u32, u32)> = vec![];
    for bi in 0..nblocks {
        span(|| {
            let f = if bi < o.files && chance(3, 4) {
                bi as usize
            } else if tail {
                below(o.files.min(2)) as usize
            } else {
                below(o.files) as usize
            };
            let mut start = at
                + match below(12) {
                    0..=4 => 0,
                    5 | 6 => 1,
                    _ if many => 1 + below(6) as u32,
                    7 | 8 => below(64) as u32,
                    // Up to a round address, or just short of it.
                    9 => {
                        let to = pick(&[0x10u32, 0x100, 0x1000, 0x4000, 0x8000]);
                        ((to - at % to) % to).saturating_sub(below(3) as u32)
                    }
                    _ => below(0x1000) as u32,
                };
            let (clash, first) = if tail { (bi + 4 >= nblocks && coin(), (spans.len() as u64).saturating_sub(1)) } else { (chance(1, 10), 0) };
            if o.conflicts && !spans.is_empty() && clash {
                let (s, l) = spans[range(first, spans.len() as u64 - 1) as usize];
                // Inside, at an edge of, or around another block.
                start = (s + below(l as u64 + 2) as u32).saturating_sub(below(4) as u32);
                fault("overlapping blocks");
            }
            let big = o.huge && !many && chance(1, 24);
            if big && chance(1, 2) {
                start = start.max(0xFE00 - 40 - below(20) as u32);
            }
            if start >= 0xFE00 {
                return;
            }
            let room = 0xFE00 - start;
            let mut b = Block { start, items: vec![], end_labels: vec![] };
            if big {
                let n = match below(3) {
                    0 => room,
                    1 => 1 + below(room as u64) as u32,
                    _ => room.min(0x8001),
                };
                if n > 0 {
                    b.items.push(Item { labels: vec![], kind: Kind::Blkw(n as u16) });
                    probe("blocks with large reservations");
                }
            }
            let bulk = o.huge && !many && chance(1, 40);
            if bulk {
                // More statements than any one-byte count can hold.
                for i in 0..range(240, 700).min((room - b.len()) as u64) {
                    let kind = if i % 7 == 3 { Kind::Instr("HALT".into(), 0xF025) } else { Kind::FillNum(i as u16) };
                    b.items.push(Item { labels: vec![], kind });
                }
                probe("blocks of hundreds of statements");
            }
            for _ in 0..if many { 1 + below(2) } else { below(9) } {
                let used = b.len();
                if let Some(kind) = span(|| item(room - used)) {
                    b.items.push(Item { labels: vec![], kind });
                }
            }
            if o.huge && chance(1, 200) && room - b.len() > 2000 {
                // A string beyond one-byte lengths.
                let v: String = (0..range(250, 900)).map(|i| (b'a' + (i % 26) as u8) as char).collect();
                b.items.push(Item { labels: vec![], kind: Kind::Stringz(v) });
                probe("strings of hundreds of characters");
            }
            if b.len() == 0 {
                // An empty block defines nothing.
            } else {
                at = at.max(start + b.len());
                spans.push((start, b.len()));
            }
            layout[f].push(b);
        });
    }

    // Labels.
    let mut pool: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
    if o.unicode {
        pool.extend(UNICODE_NAMES.iter().map(|s| s.to_string()));
    }
    if o.huge && chance(1, 40) {
        pool.extend((0..range(240, 300)).map(|i| format!("bulk{i}")));
        probe("worlds of hundreds of labels");
    }
    let mut defs: Vec<BTreeMap<String, u16>> = vec![BTreeMap::new(); n];
    let mut spelled: BTreeMap<String, String> = BTreeMap::new();
    let mut empties: Vec<Vec<(u16, String)>> = vec![vec![]; n];
    let mut exts: Vec<BTreeSet<String>> = vec![BTreeSet::new(); n];
    for name in pool {
        span(|| {
            let key = up(&name);
            spelled.insert(key.clone(), name.clone());
            if chance(1, 3) {
                return;
            }
            let definer = if chance(5, 6) { Some(below(o.files) as usize) } else { None };
            if let Some(f) = definer {
                let a = place_label(&mut layout[f], &mut empties[f], &key, None);
                defs[f].insert(key.clone(), a);
                if chance(1, 5) && n > 1 {
                    // A second definition, at the same or another address.
                    let g = (f + 1 + below(o.files - 1) as usize) % n;
                    let same = !o.conflicts || chance(2, 3);
                    let a2 = place_label(&mut layout[g], &mut empties[g], &key, same.then_some(a));
                    defs[g].insert(key.clone(), a2);
                    if a2 != a {
                        fault("one label at two addresses");
                    } else {
                        probe("one label defined twice at the same address");
                    }
                }
            }
            for g in 0..n {
                if !defs[g].contains_key(&key) && chance(1, 2) {
                    exts[g].insert(key.clone());
                }
            }
        });
    }

    // References, now that every address is known.
    for f in 0..n {
        let known: Vec<String> = defs[f].keys().cloned().collect();
        let ext: Vec<String> = exts[f].iter().cloned().collect();
        for b in &mut layout[f] {
            let mut a = b.start;
            for it in &mut b.items {
                if let Kind::FillNum(_) = it.kind {
                    if !ext.is_empty() && chance(1, 2) {
                        it.kind = Kind::FillLab(ext[below(ext.len() as u64) as usize].clone());
                    } else if !known.is_empty() && chance(1, 3) {
                        it.kind = Kind::FillLab(known[below(known.len() as u64) as usize].clone());
                    }
                } else if let Kind::Instr(..) = it.kind {
                    if !known.is_empty() && chance(1, 3) {
                        let l = known[below(known.len() as u64) as usize].clone();
                        let off = defs[f][&l] as i32 - (a as i32 + 1);
                        let d = below(8) as u16;
                        let (m, base, bits) = match below(5) {
                            0 => {
                                let (n, cc) = pick(BRS);
                                (kw(n), cc << 9, 9)
                            }
                            1 => (kw("jsr"), 0x4800, 11),
                            _ => {
                                let (n, w) = pick(&[("ld", 0x2000u16), ("ldi", 0xA000), ("lea", 0xE000), ("st", 0x3000), ("sti", 0xB000)]);
                                (format!("{} R{d},", kw(n)), w | d << 9, 9)
                            }
                        };
                        if off >= -(1 << (bits - 1)) && off < 1 << (bits - 1) {
                            it.kind = Kind::PcRel(m, base | off as u16 & ((1 << bits) - 1), bits, l);
                        }
                    }
                }
                a += it.kind.len();
            }
        }
    }

    (0..n)
        .map(|f| {
            let debug = o.always_debug || chance(2, 3);
            span(|| write_file(&layout[f], &empties[f], &exts[f], &defs[f], &spelled, debug, o))
        })
        .collect()
}

/// Puts a label on a statement of the file, before the end of one of its
/// blocks, or in an empty block of its own.
fn place_label(blocks: &mut [Block], empties: &mut Vec<(u16, String)>, key: &str, want: Option<u16>) -> u16 {
    let mut spots: Vec<(usize, usize, u16)> = vec![];
    for (bi, b) in blocks.iter().enumerate() {
        let mut a = b.start;
        for (i, it) in b.items.iter().enumerate() {
            if a < 0x10000 {
                spots.push((bi, i, a as u16));
            }
            a += it.kind.len();
        }
        if a < 0x10000 {
            spots.push((bi, b.items.len(), a as u16));
        }
    }
    if let Some(w) = want {
        spots.retain(|s| s.2 == w);
    }
    if spots.is_empty() || chance(1, 10) {
        let a = want.unwrap_or_else(|| pick(&[0x4000u16, 0x0000, 0xFFFF, 0xFE00, 0x3000, 0xFDFF]));
        empties.push((a, key.to_string()));
        return a;
    }
    let (bi, i, a) = spots[below(spots.len() as u64) as usize];
    if i == blocks[bi].items.len() {
        blocks[bi].end_labels.push(key.to_string());
    } else {
        blocks[bi].items[i].labels.push(key.to_string());
    }
    a
}

struct W {
    s: String,
    nl: &'static str,
    line: usize,
    pos: BTreeMap<String, (usize, usize)>,
}
impl W {
    fn name(&mut self, l: &str, text: &str) {
        let at = self.s.len();
        self.pos.entry(l.to_string()).or_insert((at, at + text.len()));
        self.s.push_str(text);
    }
    fn end_line(&mut self) {
        if chance(1, 4) {
            if coin() {
                self.s.push(' ');
            }
            self.s.push_str(&comment());
        }
        if chance(1, 8) {
            self.s.push_str(pick(&[" ", "\t", "  "]));
        }
        self.s.push_str(self.nl);
        self.line += 1;
    }
    fn indent(&mut self) {
        self.s.push_str(pick(&["", "  ", "\t", "    "]));
    }
    fn noise(&mut self) {
        if chance(1, 6) {
            match below(3) {
                0 => self.s.push_str(&comment()),
                1 => self.s.push_str("   "),
                _ => {}
            }
            self.s.push_str(self.nl);
            self.line += 1;
        }
    }
    fn labels(&mut self, ls: &[String], spelled: &BTreeMap<String, String>) {
        for l in ls {
            let text = spell(&spelled[l]);
            self.name(l, &text);
            match below(4) {
                0 => self.s.push(':'),
                1 => self.s.push_str(" :"),
                _ => {}
            }
            if chance(1, 24) {
                // Once more, at the same address.
                self.s.push_str(pick(&[" ", "\t"]));
                self.s.push_str(&spell(&spelled[l]));
            }
            if chance(1, 3) {
                self.end_line();
            } else {
                self.s.push_str(pick(&[" ", "\t", "   "]));
            }
        }
    }
}

fn write_file(
    blocks: &[Block],
    empties: &[(u16, String)],
    exts: &BTreeSet<String>,
    defs: &BTreeMap<String, u16>,
    spelled: &BTreeMap<String, String>,
    debug: bool,
    o: &Opts,
) -> File {
    let mut w = W { s: String::new(), nl: if chance(1, 4) { "\r\n" } else { "\n" }, line: 0, pos: BTreeMap::new() };
    let mut f = File { debug, defs: defs.clone(), exts: exts.clone(), ..Default::default() };
    if o.huge && chance(1, 200) {
        for _ in 0..10_050 + below(300) {
            w.s.push('\n');
            w.line += 1;
        }
        probe("files of more than 10000 lines");
    }
    // Empty lines between statements that take line numbers past 65536. (The
    // parser is quadratic in the length of a run of them, so there are many runs.)
    let total: usize = blocks.iter().map(|b| b.items.len()).sum();
    let step = total / 40 + 1;
    let runs: usize = blocks.iter().map(|b| b.items.len().div_ceil(step)).sum();
    let gap = if o.huge && total >= 15 && chance(1, 25) {
        probe("files of more than 65536 lines");
        65_400 / runs + 5
    } else {
        0
    };
    if o.huge && chance(1, 200) {
        // One line longer than any two-byte column.
        w.s.push(';');
        w.s.push_str(&"=".repeat(if coin() { 300 } else { 66_000 }));
        w.s.push('\n');
        w.line += 1;
        probe("lines of more than 255 characters");
    }
    // Where each external is declared: before everything, inside a block, or after everything.
    let mut before = vec![];
    let mut after = vec![];
    let mut inside: BTreeMap<(usize, usize), Vec<String>> = BTreeMap::new();
    for e in exts {
        match weighted(&[3, 2, 2]) {
            0 => before.push(e.clone()),
            1 => after.push(e.clone()),
            _ => {
                if blocks.is_empty() {
                    before.push(e.clone())
                } else {
                    let b = below(blocks.len() as u64) as usize;
                    let i = below(blocks[b].items.len() as u64 + 1) as usize;
                    inside.entry((b, i)).or_default().push(e.clone());
                }
            }
        }
    }
    let ext_line = |w: &mut W, e: &str| {
        w.indent();
        w.s.push_str(&format!("{} ", kw(".external")));
        let text = spell(&spelled[e]);
        w.name(e, &text);
        w.end_line();
        if chance(1, 16) {
            w.s.push_str(&format!(".external {}", spelled[e]));
            w.end_line();
        }
    };
    for e in &before {
        ext_line(&mut w, e);
    }
    // Blocks and label-only blocks in a drawn order.
    let mut order: Vec<(bool, usize)> = (0..blocks.len()).map(|i| (true, i)).chain((0..empties.len()).map(|i| (false, i))).collect();
    for i in (1..order.len()).rev() {
        let j = i - below(i as u64 + 1) as usize;
        order.swap(i, j);
    }
    for (is_block, bi) in order {
        w.noise();
        w.indent();
        if !is_block {
            let (a, l) = &empties[bi];
            w.s.push_str(&format!("{} {}", kw(".orig"), unum(*a)));
            w.end_line();
            w.indent();
            w.labels(std::slice::from_ref(l), spelled);
            w.s.push_str(&kw(".end"));
            w.end_line();
            continue;
        }
        let b = &blocks[bi];
        w.s.push_str(&format!("{} {}", kw(".orig"), unum(b.start as u16)));
        w.end_line();
        let mut a = b.start;
        for (i, it) in b.items.iter().enumerate() {
            for e in inside.get(&(bi, i)).into_iter().flatten() {
                ext_line(&mut w, e);
            }
            if i % step == 0 {
                for _ in 0..gap {
                    w.s.push('\n');
                }
                w.line += gap;
            }
            // Long runs of lines without a gap occur in long blocks only.
            if b.items.len() < 100 {
                w.noise();
            }
            w.indent();
            w.labels(&it.labels, spelled);
            let text = match &it.kind {
                Kind::FillNum(v) => {
                    f.image.insert(a as u16, Some(*v));
                    format!("{} {}", kw(".fill"), num(*v))
                }
                Kind::FillLab(l) => {
                    if let Some(&v) = defs.get(l) {
                        f.image.insert(a as u16, Some(v));
                    } else {
                        f.image.insert(a as u16, Some(0));
                        f.rels.insert(a as u16, l.clone());
                    }
                    format!("{} {}", kw(".fill"), spell(&spelled[l]))
                }
                Kind::Blkw(n) => {
                    for k in 0..*n as u32 {
                        f.image.insert((a + k) as u16, None);
                    }
                    format!("{} {}", kw(".blkw"), unum(*n))
                }
                Kind::Stringz(s) => {
                    for (k, c) in s.bytes().chain([0]).enumerate() {
                        f.image.insert((a + k as u32) as u16, Some(c as u16));
                    }
                    format!("{} \"{}\"", kw(".stringz"), spell_string(s))
                }
                Kind::Instr(t, v) => {
                    f.image.insert(a as u16, Some(*v));
                    t.clone()
                }
                Kind::PcRel(m, v, _, l) => {
                    f.image.insert(a as u16, Some(*v));
                    format!("{} {}", m, spell(&spelled[l]))
                }
                Kind::External(_) => unreachable!(),
            };
            w.s.push_str(&text);
            f.lines.insert(a as u16, format!("\0{}", w.line));
            f.line_no.insert(a as u16, w.line);
            w.end_line();
            a += it.kind.len();
        }
        for e in inside.get(&(bi, b.items.len())).into_iter().flatten() {
            ext_line(&mut w, e);
        }
        w.noise();
        w.indent();
        w.labels(&b.end_labels, spelled);
        w.s.push_str(&kw(".end"));
        w.end_line();
        if b.len() > 0 {
            f.blocks.push((b.start, b.len()));
        }
    }
    for e in &after {
        ext_line(&mut w, e);
    }
    if coin() {
        w.noise();
    }
    // The last line may lack its newline.
    if coin() && w.s.ends_with('\n') {
        w.s.truncate(w.s.len() - w.nl.len());
    }
    let text: Vec<&str> = w.s.split('\n').collect();
    for l in f.lines.values_mut() {
        let i: usize = l[1..].parse().expect("line number");
        *l = text[i].trim().to_string();
    }
    f.nlines = text.len();
    f.blocks.sort();
    f.src = w.s;
    f.pos = w.pos;
    f
}

/// What linking a set of files must give.
#[derive(Clone, Debug, Default)]
pub struct Linked {
    pub image: BTreeMap<u16, Option<u16>>,
    /// (address, external) by upper-cased name.
    pub labels: BTreeMap<String, (u16, bool)>,
    pub rels: BTreeMap<u16, String>,
    pub lines: BTreeMap<u16, String>,
}
pub fn conflict(fs: &[&File]) -> Option<&'static str> {
    for (i, a) in fs.iter().enumerate() {
        for b in &fs[i + 1..] {
            for &(s, l) in &a.blocks {
                for &(t, m) in &b.blocks {
                    if s < t + m && t < s + l {
                        return Some("blocks overlap");
                    }
                }
            }
            for (k, x) in &a.defs {
                if b.defs.get(k).is_some_and(|y| x != y) {
                    return Some("label at two addresses");
                }
            }
        }
    }
    None
}
pub fn link_model(fs: &[&File]) -> Linked {
    let mut m = Linked::default();
    for f in fs {
        for (k, &a) in &f.defs {
            m.labels.insert(k.clone(), (a, false));
        }
    }
    for f in fs {
        for e in &f.exts {
            m.labels.entry(e.clone()).or_insert((0, true));
        }
        for (&a, &v) in &f.image {
            m.image.insert(a, v);
        }
        m.lines.extend(f.lines.clone());
    }
    for f in fs {
        for (&a, l) in &f.rels {
            match m.labels[l] {
                (v, false) => {
                    m.image.insert(a, Some(v));
                }
                _ => {
                    m.rels.insert(a, l.clone());
                }
            }
        }
    }
    m
}
/// Blocks of one file overlap each other (the assembler must reject it).
pub fn self_overlap(f: &File) -> bool {
    f.blocks.windows(2).any(|w| w[0].0 + w[0].1 > w[1].0)
}
