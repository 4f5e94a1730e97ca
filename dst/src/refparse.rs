//! A reference parser for LC-3 assembly, and a printer of statements in any
//! layout. The parser is conservative: it answers only for texts that are
//! surely within the grammar.
use crate::ctx::*;
use crate::gen::*;
use lc3_ensemble::ast::asm::{AsmInstr, Directive, Stmt, StmtKind};
use lc3_ensemble::ast::{ImmOrReg, Label, Offset, PCOffset, Reg};
use std::cell::Cell;
use std::ops::Range;

const KEYWORDS: &[&str] = &[
    "ADD", "AND", "NOT", "BR", "BRP", "BRZ", "BRZP", "BRN", "BRNP", "BRNZ", "BRNZP", "JMP", "JSR", "JSRR", "LD", "LDI", "LDR", "LEA", "ST", "STI", "STR", "TRAP", "NOP", "RET", "RTI", "GETC", "OUT", "PUTC", "PUTS", "IN", "PUTSP", "HALT",
];

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    /// Unsigned and signed notation differ in what fields take them.
    Num(i32, bool),
    Reg(u8),
    Key(&'static str),
    Name(String),
    Dir(String),
    Str(String),
    Colon,
    Comma,
    Line,
}
fn number(digits: &str, radix: u32, neg: bool, bad: &Cell<bool>) -> Option<Tok> {
    // (A lone sign, or digits of another kind, is no number.)
    if digits.is_empty() || !digits.chars().all(|c| c.is_ascii() && c.is_digit(radix)) {
        return None;
    }
    let mut v: i64 = 0;
    for c in digits.chars() {
        v = (v * radix as i64 + c.to_digit(radix)? as i64).min(1 << 20);
    }
    match neg {
        false if v <= 0xFFFF => Some(Tok::Num(v as i32, false)),
        true if v <= 0x8000 => Some(Tok::Num(-v as i32, true)),
        _ => {
            bad.set(true);
            None
        }
    }
}
fn tokens(src: &str, bad: &Cell<bool>) -> Option<Vec<(Tok, Range<usize>)>> {
    let b = src.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    let word_end = |from: usize| -> Option<usize> {
        let mut j = from;
        for c in src[from..].chars() {
            if c.is_ascii_alphanumeric() || c == '_' || (!c.is_ascii() && c.is_alphabetic()) {
                j += c.len_utf8();
            } else if c.is_ascii() {
                break;
            } else {
                return None;
            }
        }
        Some(j)
    };
    while i < b.len() {
        let s = i;
        match b[i] {
            b' ' | b'\t' => {
                i += 1;
                continue;
            }
            b';' => {
                i = src[i..].find('\n').map_or(b.len(), |k| i + k);
                continue;
            }
            b'\n' => {
                i += 1;
                out.push((Tok::Line, s..i));
            }
            b'\r' if b.get(i + 1) == Some(&b'\n') => {
                i += 2;
                out.push((Tok::Line, s..i));
            }
            b':' | b',' => {
                i += 1;
                out.push((if b[s] == b':' { Tok::Colon } else { Tok::Comma }, s..i));
            }
            b'"' => {
                let mut text = String::new();
                let mut it = src[i + 1..].char_indices();
                loop {
                    match it.next()? {
                        (k, '"') => {
                            i += 1 + k + 1;
                            break;
                        }
                        (_, '\\') => text.push(match it.next()?.1 {
                            'n' => '\n',
                            'r' => '\r',
                            't' => '\t',
                            '0' => '\0',
                            '\\' => '\\',
                            '"' => '"',
                            _ => return None,
                        }),
                        (_, '\n' | '\r') => return None,
                        (_, c) => text.push(c),
                    }
                }
                if text.len() >= 0xFFFF {
                    return None;
                }
                out.push((Tok::Str(text), s..i));
            }
            b'.' => {
                i = word_end(i + 1)?;
                if !src[s..i].is_ascii() {
                    return None;
                }
                out.push((Tok::Dir(src[s + 1..i].to_ascii_uppercase()), s..i));
            }
            b'#' | b'-' | b'0'..=b'9' => {
                let mut d = i;
                if b[d] == b'#' {
                    d += 1;
                }
                let neg = b.get(d) == Some(&b'-');
                if neg {
                    d += 1;
                }
                i = word_end(d)?;
                out.push((number(&src[d..i], 10, neg, bad)?, s..i));
            }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                if c.eq_ignore_ascii_case(&b'x') && b.get(i + 1) == Some(&b'-') {
                    i = word_end(i + 2)?;
                    out.push((number(&src[s + 2..i], 16, true, bad)?, s..i));
                } else {
                    i = word_end(i)?;
                    let w = &src[s..i];
                    let rest = &w[1..];
                    let tok = if c.eq_ignore_ascii_case(&b'r') && !rest.is_empty() && rest.bytes().all(|c| c.is_ascii_digit()) {
                        let r = rest.parse().ok().filter(|r| *r < 8);
                        bad.set(r.is_none());
                        Tok::Reg(r?)
                    } else if c.eq_ignore_ascii_case(&b'x') && rest.bytes().next().is_some_and(|c| c.is_ascii_hexdigit()) {
                        number(rest, 16, false, bad)?
                    } else if c.eq_ignore_ascii_case(&b'x') && rest.chars().next().is_some_and(|c| !c.is_ascii()) {
                        return None;
                    } else if let Some(k) = KEYWORDS.iter().find(|k| w.eq_ignore_ascii_case(k)) {
                        Tok::Key(k)
                    } else if !w.is_ascii() && KEYWORDS.iter().any(|k| w.to_uppercase() == **k) {
                        return None;
                    } else {
                        Tok::Name(w.to_string())
                    };
                    out.push((tok, s..i));
                }
            }
            _ => return None,
        }
        // Words that touch are one word to one reader and two to another.
        if let [.., (a, r), (c, q)] = &out[..] {
            let solid = |t: &Tok| !matches!(t, Tok::Comma | Tok::Colon | Tok::Line);
            if r.end == q.start && solid(a) && solid(c) {
                return None;
            }
        }
    }
    Some(out)
}

struct Reader<'a> {
    toks: Vec<(Tok, Range<usize>)>,
    at: usize,
    /// Set where a value does not fit its field.
    bad: &'a Cell<bool>,
}
impl Reader<'_> {
    fn no<T>(&self) -> Option<T> {
        self.bad.set(true);
        None
    }
    fn peek(&self) -> Option<&Tok> {
        self.toks.get(self.at).map(|t| &t.0)
    }
    fn next(&mut self) -> Option<(Tok, Range<usize>)> {
        self.at += 1;
        self.toks.get(self.at - 1).cloned()
    }
    fn comma(&mut self) -> Option<()> {
        (self.next()?.0 == Tok::Comma).then_some(())
    }
    fn reg(&mut self) -> Option<Reg> {
        match self.next()?.0 {
            Tok::Reg(r) => Reg::try_from(r).ok(),
            _ => None,
        }
    }
    fn signed<const N: u32>(&mut self) -> Option<Offset<i16, N>> {
        match self.next()?.0 {
            Tok::Num(v, _) if v >= -(1 << (N - 1)) && v < 1 << (N - 1) => Offset::new(v as i16).ok(),
            Tok::Num(..) => self.no(),
            _ => None,
        }
    }
    fn unsigned<const N: u32>(&mut self) -> Option<Offset<u16, N>> {
        match self.next()?.0 {
            Tok::Num(v, _) if v >= 0 && v < 1 << N => Offset::new(v as u16).ok(),
            Tok::Num(..) => self.no(),
            _ => None,
        }
    }
    fn pc<const N: u32>(&mut self) -> Option<PCOffset<i16, N>> {
        if let Some(Tok::Name(_)) = self.peek() {
            return Some(PCOffset::Label(self.label()?));
        }
        Some(PCOffset::Offset(self.signed::<N>()?))
    }
    fn label(&mut self) -> Option<Label> {
        match self.next()? {
            (Tok::Name(n), r) => Some(Label::new(n, r)),
            _ => None,
        }
    }
    fn stmt(&mut self) -> Option<Stmt> {
        let mut labels = vec![];
        loop {
            match self.peek()? {
                Tok::Line => self.at += 1,
                Tok::Name(_) => {
                    labels.push(self.label()?);
                    if self.peek() == Some(&Tok::Colon) {
                        self.at += 1;
                    }
                }
                _ => break,
            }
        }
        let (head, Range { start, .. }) = self.next()?;
        let nucleus = match head {
            Tok::Dir(d) => StmtKind::Directive(match &*d {
                "ORIG" => Directive::Orig(self.unsigned()?),
                "FILL" => Directive::Fill(match self.peek()? {
                    Tok::Name(_) => PCOffset::Label(self.label()?),
                    Tok::Num(v, _) => {
                        let v = *v as u16;
                        self.at += 1;
                        PCOffset::Offset(Offset::new(v).ok()?)
                    }
                    _ => return None,
                }),
                "BLKW" => Directive::Blkw(match self.unsigned()? {
                    n if n.get() == 0 => return self.no(),
                    n => n,
                }),
                "STRINGZ" => match self.next()?.0 {
                    Tok::Str(s) => Directive::Stringz(s),
                    _ => return None,
                },
                "END" => Directive::End,
                "EXTERNAL" => Directive::External(self.label()?),
                _ => return None,
            }),
            Tok::Key(k) => StmtKind::Instr(self.instr(k)?),
            _ => return None,
        };
        let end = self.toks[self.at - 1].1.end;
        match self.next() {
            None | Some((Tok::Line, _)) => {}
            _ => return None,
        }
        Some(Stmt { labels, nucleus, span: start..end })
    }
    fn instr(&mut self, k: &str) -> Option<AsmInstr> {
        use AsmInstr::*;
        let arith = |t: &mut Self| -> Option<(Reg, Reg, ImmOrReg<5>)> {
            let d = t.reg()?;
            t.comma()?;
            let s = t.reg()?;
            t.comma()?;
            let o = match t.peek()? {
                Tok::Reg(_) => ImmOrReg::Reg(t.reg()?),
                _ => ImmOrReg::Imm(t.signed()?),
            };
            Some((d, s, o))
        };
        let rpc = |t: &mut Self| -> Option<(Reg, PCOffset<i16, 9>)> {
            let r = t.reg()?;
            t.comma()?;
            Some((r, t.pc()?))
        };
        let based = |t: &mut Self| -> Option<(Reg, Reg, Offset<i16, 6>)> {
            let r = t.reg()?;
            t.comma()?;
            let b = t.reg()?;
            t.comma()?;
            Some((r, b, t.signed()?))
        };
        Some(match k {
            "ADD" => arith(self).map(|(d, s, o)| ADD(d, s, o))?,
            "AND" => arith(self).map(|(d, s, o)| AND(d, s, o))?,
            "NOT" => {
                let d = self.reg()?;
                self.comma()?;
                NOT(d, self.reg()?)
            }
            "JMP" => JMP(self.reg()?),
            "JSR" => JSR(self.pc()?),
            "JSRR" => JSRR(self.reg()?),
            "LD" => rpc(self).map(|(r, o)| LD(r, o))?,
            "LDI" => rpc(self).map(|(r, o)| LDI(r, o))?,
            "LEA" => rpc(self).map(|(r, o)| LEA(r, o))?,
            "ST" => rpc(self).map(|(r, o)| ST(r, o))?,
            "STI" => rpc(self).map(|(r, o)| STI(r, o))?,
            "LDR" => based(self).map(|(r, b, o)| LDR(r, b, o))?,
            "STR" => based(self).map(|(r, b, o)| STR(r, b, o))?,
            "TRAP" => TRAP(self.unsigned()?),
            "NOP" => match self.peek() {
                Some(Tok::Num(..) | Tok::Name(_)) => NOP(self.pc()?),
                _ => NOP(PCOffset::Offset(Offset::new(0).ok()?)),
            },
            "RET" => RET,
            "RTI" => RTI,
            "GETC" => GETC,
            "OUT" => OUT,
            "PUTC" => PUTC,
            "PUTS" => PUTS,
            "IN" => IN,
            "PUTSP" => PUTSP,
            "HALT" => HALT,
            br => {
                let cc = &br[2..];
                let bits = [('N', 4), ('Z', 2), ('P', 1)].iter().filter(|(c, _)| cc.contains(*c)).map(|x| x.1).sum::<u8>();
                BR(if cc.is_empty() { 7 } else { bits }, self.pc()?)
            }
        })
    }
}
pub enum Reading {
    /// These statements.
    Stmts(Vec<Stmt>),
    /// Surely not: a value or register number is out of range.
    Bad,
    Unsure,
}
pub fn reading(src: &str) -> Reading {
    let bad = Cell::new(false);
    let all = || {
        let mut r = Reader { toks: tokens(src, &bad)?, at: 0, bad: &bad };
        let mut out = vec![];
        loop {
            while r.peek() == Some(&Tok::Line) {
                r.at += 1;
            }
            if r.peek().is_none() {
                return Some(out);
            }
            out.push(r.stmt()?);
        }
    };
    match all() {
        Some(s) => Reading::Stmts(s),
        None if bad.get() => Reading::Bad,
        None => Reading::Unsure,
    }
}
/// The statements of a text that is surely within the grammar.
pub fn parse(src: &str) -> Option<Vec<Stmt>> {
    match reading(src) {
        Reading::Stmts(s) => Some(s),
        _ => None,
    }
}
/// A statement without its places in the source.
pub fn bare(s: &Stmt) -> Stmt {
    let l = |l: &Label| Label::new(l.name.clone(), 0..l.name.len());
    fn pc<O: Clone, const N: u32>(o: &PCOffset<O, N>, l: impl Fn(&Label) -> Label) -> PCOffset<O, N> {
        match o {
            PCOffset::Label(x) => PCOffset::Label(l(x)),
            o => o.clone(),
        }
    }
    use AsmInstr::*;
    let nucleus = match &s.nucleus {
        StmtKind::Instr(i) => StmtKind::Instr(match i {
            BR(c, o) => BR(*c, pc(o, l)),
            JSR(o) => JSR(pc(o, l)),
            LD(r, o) => LD(*r, pc(o, l)),
            LDI(r, o) => LDI(*r, pc(o, l)),
            LEA(r, o) => LEA(*r, pc(o, l)),
            ST(r, o) => ST(*r, pc(o, l)),
            STI(r, o) => STI(*r, pc(o, l)),
            NOP(o) => NOP(pc(o, l)),
            i => i.clone(),
        }),
        StmtKind::Directive(d) => StmtKind::Directive(match d {
            Directive::Fill(o) => Directive::Fill(pc(o, l)),
            Directive::External(x) => Directive::External(l(x)),
            d => d.clone(),
        }),
    };
    Stmt { labels: s.labels.iter().map(l).collect(), nucleus, span: 0..0 }
}
/// Replaces a number or a register of a text, mostly by one at an edge.
pub fn renumber(src: &mut String) -> bool {
    let Some(toks) = tokens(src, &Cell::new(false)) else { return false };
    let nums: Vec<&(Tok, Range<usize>)> = toks.iter().filter(|t| matches!(t.0, Tok::Num(..) | Tok::Reg(_))).collect();
    if nums.is_empty() {
        return false;
    }
    let (t, r) = nums[below(nums.len() as u64) as usize];
    let new = if matches!(t, Tok::Reg(_)) {
        let n = pick(&["0", "7", "8", "9", "10", "07", "08", "007", "77", "70", "255", "256", "257", "263", "65543", "4294967296", "18446744073709551623", "00000000000000000000000000000001"]);
        format!("{}{n}", pick(&["R", "r"]))
    } else {
        let e = 1i64 << pick(&[0, 1, 3, 4, 4, 5, 5, 6, 7, 8, 8, 9, 10, 10, 11, 12, 15, 15, 16, 16, 17, 31, 32, 62]);
        let v = e + below(5) as i64 - 2;
        let v = if coin() { -v } else { v };
        let zeros = pick(&["", "", "", "", "0", "00000000000000000000"]);
        let (a, sign) = (v.unsigned_abs(), if v < 0 || (v == 0 && coin()) { "-" } else { "" });
        match below(5) {
            0 => format!("{sign}{zeros}{a}"),
            1 => format!("#{sign}{zeros}{a}"),
            2 => format!("x{sign}{zeros}{a:x}"),
            3 => format!("X{sign}{zeros}{a:X}"),
            _ => format!("{sign}{a}"),
        }
    };
    let r = r.clone();
    src.replace_range(r, &new);
    true
}
/// Where two readings of one text differ: in names, operands or spans.
pub fn differ(got: &[Stmt], want: &[Stmt]) -> Option<String> {
    for (i, w) in want.iter().enumerate() {
        let Some(g) = got.get(i) else {
            return Some(format!("statement {i} is missing: {w}"));
        };
        if g != w {
            return Some(format!("statement {i} is {g:?}, expected {w:?}"));
        }
    }
    got.get(want.len()).map(|g| format!("there is a statement too many: {g:?}"))
}

// ---- Any layout ----

struct Page {
    s: String,
    crlf: u64,
}
impl Page {
    fn nl(&mut self) {
        let crlf = match self.crlf {
            0 => false,
            1 => true,
            _ => coin(),
        };
        self.s.push_str(if crlf { "\r\n" } else { "\n" });
    }
    fn comment(&mut self) {
        let t = pick(&["; plain", ";", ";; .end", "; \"open", "; ADD R0, R0, #1", "; \\", ";\u{e9}\u{1F600}", "; a:b,c", ";\ttab", "; x\u{2028}y", "; .orig x3000"]);
        self.s.push_str(t);
    }
    /// Space that may be left out.
    fn gap(&mut self) {
        self.s.push_str(pick(&["", "", " ", "  ", "\t", " \t ", "        "]));
    }
    fn space(&mut self) {
        self.s.push_str(pick(&[" ", " ", "\t", "  ", "\t\t", " \t"]));
    }
    /// A break between the parts of a statement or between statements.
    fn blank(&mut self) {
        for _ in 0..below(3) {
            self.gap();
            if chance(1, 3) {
                self.comment();
            }
            self.nl();
        }
        self.gap();
    }
    fn word(&mut self, w: &str) {
        let how = below(4);
        for c in w.chars() {
            self.s.push(match how {
                0 => c,
                1 => c.to_ascii_uppercase(),
                2 => c.to_ascii_lowercase(),
                _ if coin() => c.to_ascii_uppercase(),
                _ => c.to_ascii_lowercase(),
            });
        }
    }
    fn reg(&mut self, r: Reg) {
        self.s.push(pick(&['R', 'r', 'R']));
        if chance(1, 12) {
            self.s.push('0');
        }
        self.s.push_str(&r.reg_no().to_string());
    }
    fn num(&mut self, v: i32) {
        let zeros = pick(&["", "", "", "", "0", "000"]);
        let a = v.unsigned_abs();
        let sign = if v < 0 { "-" } else { "" };
        match below(4) {
            0 => self.s.push_str(&format!("{sign}{zeros}{a}")),
            1 => self.s.push_str(&format!("#{sign}{zeros}{a}")),
            2 => self.s.push_str(&format!("x{sign}{zeros}{a:x}")),
            _ => {
                let d: String = format!("{a:X}").chars().map(|c| if coin() { c } else { c.to_ascii_lowercase() }).collect();
                self.s.push_str(&format!("X{sign}{zeros}{d}"));
            }
        }
    }
    fn label(&mut self, l: &Label) -> Label {
        let at = self.s.len();
        self.s.push_str(&l.name);
        Label::new(l.name.clone(), at..self.s.len())
    }
    fn pc<const N: u32>(&mut self, o: &PCOffset<i16, N>) -> PCOffset<i16, N> {
        match o {
            PCOffset::Label(l) => PCOffset::Label(self.label(l)),
            PCOffset::Offset(v) => {
                self.num(v.get() as i32);
                o.clone()
            }
        }
    }
    fn comma(&mut self) {
        self.gap();
        self.s.push(',');
        self.gap();
    }
    fn string(&mut self, t: &str) {
        self.s.push('"');
        for c in t.chars() {
            match c {
                '\n' => self.s.push_str("\\n"),
                '\r' => self.s.push_str("\\r"),
                '\0' => self.s.push_str("\\0"),
                '\\' => self.s.push_str("\\\\"),
                '"' => self.s.push_str("\\\""),
                '\t' if coin() => self.s.push_str("\\t"),
                c => self.s.push(c),
            }
        }
        self.s.push('"');
    }
    fn instr(&mut self, i: &AsmInstr) -> AsmInstr {
        use AsmInstr::*;
        macro_rules! rpc {
            ($w:literal, $v:ident, $r:ident, $o:ident) => {{
                self.word($w);
                self.space();
                self.reg(*$r);
                self.comma();
                $v(*$r, self.pc($o))
            }};
        }
        macro_rules! arith {
            ($w:literal, $d:ident, $s:ident, $o:ident) => {{
                self.word($w);
                self.space();
                self.reg(*$d);
                self.comma();
                self.reg(*$s);
                self.comma();
                match $o {
                    ImmOrReg::Imm(v) => self.num(v.get() as i32),
                    ImmOrReg::Reg(r) => self.reg(*r),
                }
                i.clone()
            }};
        }
        macro_rules! based {
            ($w:literal, $d:ident, $s:ident, $o:ident) => {{
                self.word($w);
                self.space();
                self.reg(*$d);
                self.comma();
                self.reg(*$s);
                self.comma();
                self.num($o.get() as i32);
                i.clone()
            }};
        }
        macro_rules! bare {
            ($w:literal) => {{
                self.word($w);
                i.clone()
            }};
        }
        match i {
            ADD(d, s, o) => arith!("ADD", d, s, o),
            AND(d, s, o) => arith!("AND", d, s, o),
            NOT(d, s) => {
                self.word("NOT");
                self.space();
                self.reg(*d);
                self.comma();
                self.reg(*s);
                i.clone()
            }
            BR(cc, o) => {
                let all = if coin() { "BR" } else { "BRnzp" };
                self.word(match cc {
                    1 => "BRp",
                    2 => "BRz",
                    3 => "BRzp",
                    4 => "BRn",
                    5 => "BRnp",
                    6 => "BRnz",
                    _ => all,
                });
                self.space();
                BR(*cc, self.pc(o))
            }
            JMP(r) | JSRR(r) => {
                self.word(if matches!(i, JMP(_)) { "JMP" } else { "JSRR" });
                self.space();
                self.reg(*r);
                i.clone()
            }
            JSR(o) => {
                self.word("JSR");
                self.space();
                JSR(self.pc(o))
            }
            LD(r, o) => rpc!("LD", LD, r, o),
            LDI(r, o) => rpc!("LDI", LDI, r, o),
            LEA(r, o) => rpc!("LEA", LEA, r, o),
            ST(r, o) => rpc!("ST", ST, r, o),
            STI(r, o) => rpc!("STI", STI, r, o),
            LDR(d, s, o) => based!("LDR", d, s, o),
            STR(d, s, o) => based!("STR", d, s, o),
            TRAP(v) => {
                self.word("TRAP");
                self.space();
                self.num(v.get() as i32);
                i.clone()
            }
            NOP(o) => {
                self.word("NOP");
                if matches!(o, PCOffset::Offset(v) if v.get() == 0) && coin() {
                    return i.clone();
                }
                self.space();
                NOP(self.pc(o))
            }
            RET => bare!("RET"),
            RTI => bare!("RTI"),
            GETC => bare!("GETC"),
            OUT => bare!("OUT"),
            PUTC => bare!("PUTC"),
            PUTS => bare!("PUTS"),
            IN => bare!("IN"),
            PUTSP => bare!("PUTSP"),
            HALT => bare!("HALT"),
        }
    }
    fn directive(&mut self, d: &Directive) -> Directive {
        self.s.push('.');
        match d {
            Directive::Orig(a) | Directive::Blkw(a) => {
                self.word(if matches!(d, Directive::Orig(_)) { "orig" } else { "blkw" });
                self.space();
                self.num(a.get() as i32);
                d.clone()
            }
            Directive::Fill(PCOffset::Label(l)) => {
                self.word("fill");
                self.space();
                Directive::Fill(PCOffset::Label(self.label(l)))
            }
            Directive::Fill(PCOffset::Offset(v)) => {
                self.word("fill");
                self.space();
                let v = v.get();
                self.num(if v >= 0x8000 && coin() { v as i16 as i32 } else { v as i32 });
                d.clone()
            }
            Directive::Stringz(s) => {
                self.word("stringz");
                self.space();
                self.string(s);
                d.clone()
            }
            Directive::End => {
                self.word("end");
                d.clone()
            }
            Directive::External(l) => {
                self.word("external");
                self.space();
                Directive::External(self.label(l))
            }
        }
    }
}
/// The same statements in another layout, and with the spans they have there.
pub fn relayout(stmts: &[Stmt]) -> (String, Vec<Stmt>) {
    let mut p = Page { s: String::new(), crlf: below(3) };
    let mut out = vec![];
    for (i, s) in stmts.iter().enumerate() {
        p.blank();
        let labels = s
            .labels
            .iter()
            .map(|l| {
                let l = p.label(l);
                match below(6) {
                    0 => {
                        p.gap();
                        p.s.push(':');
                        p.gap();
                        // (Nothing is needed after the colon.)
                        if chance(1, 3) {
                            p.space();
                        }
                    }
                    1 => {
                        p.s.push(':');
                        if coin() {
                            p.gap();
                            p.nl();
                            p.blank();
                        }
                    }
                    2 => {
                        p.gap();
                        p.nl();
                        p.blank();
                    }
                    3 => {
                        p.space();
                        p.comment();
                        p.nl();
                        p.blank();
                    }
                    _ => p.space(),
                }
                l
            })
            .collect();
        let start = p.s.len();
        let nucleus = match &s.nucleus {
            StmtKind::Instr(i) => StmtKind::Instr(p.instr(i)),
            StmtKind::Directive(d) => StmtKind::Directive(p.directive(d)),
        };
        out.push(Stmt { labels, nucleus, span: start..p.s.len() });
        p.gap();
        if chance(1, 4) {
            p.comment();
        }
        if i + 1 < stmts.len() || coin() {
            p.nl();
        }
    }
    if p.s.ends_with('\n') {
        p.blank();
    }
    (p.s, out)
}
