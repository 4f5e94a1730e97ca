//! C17-C22, C29: the life cycle of object files. Source files are assembled
//! by separate parties, kept in simulated storage in either format, linked
//! pairwise in a scheduled order with crashes in between, and loaded.
use crate::ctx::*;
use crate::engine::guarded;
use crate::ensure;
use crate::lock::{err_name, known, REGS};
use crate::objgen::*;
use lc3_ensemble::asm::encoding::{BinaryFormat, ObjFileFormat, TextFormat};
use lc3_ensemble::asm::{assemble, assemble_debug, AsmErr, ObjectFile};
use lc3_ensemble::parse::parse_ast;
use lc3_ensemble::sim::mem::MachineInitStrategy;
use lc3_ensemble::sim::{SimErr, SimFlags, Simulator};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Blob {
    Bin(Vec<u8>),
    Text(String),
}
fn save(o: &ObjectFile, text: bool) -> Blob {
    if text {
        Blob::Text(TextFormat::serialize(o))
    } else {
        Blob::Bin(BinaryFormat::serialize(o))
    }
}
fn restore(b: &Blob) -> Option<ObjectFile> {
    match b {
        Blob::Bin(v) => BinaryFormat::deserialize(v),
        Blob::Text(s) => TextFormat::deserialize(s),
    }
}

pub fn build(f: &File) -> Result<ObjectFile, String> {
    let ast = parse_ast(&f.src).map_err(|e| format!("parse: {e}"))?;
    if f.debug { assemble_debug(ast, &f.src) } else { assemble(ast) }.map_err(|e| format!("assemble: {e}"))
}
fn show(f: &File) {
    trace(|| format!("source ({}debug symbols): {:?}", if f.debug { "" } else { "no " }, f.src));
}

/// An object in the pool: which files it was linked from, and, until it has
/// been written to storage, the objects it came from.
#[derive(Clone)]
struct Node {
    members: Vec<usize>,
    obj: ObjectFile,
    disk: Option<Blob>,
    from: Option<Box<(Node, Node)>>,
}

/// Files that assemble. A world in which one cannot be built says nothing
/// about linking or storage (C01-C05 are about that), unless none can.
fn files(o: &Opts) -> Vec<(File, ObjectFile)> {
    let mut out = vec![];
    for f in world(o) {
        if self_overlap(&f) {
            probe("files rejected by the assembler");
            continue;
        }
        show(&f);
        match guarded(|| build(&f)) {
            Ok(Ok(obj)) => out.push((f, obj)),
            Ok(Err(e)) => {
                probe("valid files the assembler rejected (not judged here)");
                trace(|| format!("  rejected: {e}"));
            }
            Err(p) => {
                probe("valid files the assembler panicked on (not judged here)");
                trace(|| format!("  panicked: {p:?}"));
            }
        }
    }
    mix(out.len() as u64);
    out
}

/// What a scenario checks at each event.
trait Judge {
    fn on_node(&mut self, fs: &[File], n: &Node) -> Res {
        let _ = (fs, n);
        Ok(())
    }
    fn on_link(&mut self, fs: &[File], a: &Node, b: &Node, r: &Result<ObjectFile, AsmErr>) -> Res {
        let _ = (fs, a, b, r);
        Ok(())
    }
    /// An object read back from storage replaced the one in memory.
    fn on_reload(&mut self, fs: &[File], n: &Node) -> Res {
        let _ = (fs, n);
        Ok(())
    }
    fn on_store(&mut self, n: &Node, b: &Blob) -> Res {
        let _ = (n, b);
        Ok(())
    }
}

fn revert(n: Node, out: &mut Vec<Node>) {
    match (n.disk.clone(), n.from.clone()) {
        (None, Some(p)) => {
            fault("unsaved link result lost in a crash");
            revert(p.0, out);
            revert(p.1, out);
        }
        _ => out.push(n),
    }
}

/// Saves and restores; the in-memory object is replaced by what came back
/// only if it is equal (what comes back is C17's and C18's business).
fn through_disk(fs: &[File], n: &mut Node, text: bool, j: &mut dyn Judge) -> Res {
    let b = match guarded(|| save(&n.obj, text)) {
        Ok(b) => b,
        Err(p) => {
            j.on_store(n, &Blob::Text(format!("panic: {p:?}")))?;
            return Ok(());
        }
    };
    j.on_store(n, &b)?;
    if let Ok(Some(o)) = guarded(|| restore(&b)) {
        if o == n.obj {
            n.obj = o;
            n.disk = Some(b);
            j.on_reload(fs, n)?;
        }
    }
    Ok(())
}

fn life(fs: &[File], objs: Vec<ObjectFile>, j: &mut dyn Judge) -> Res {
    if objs.is_empty() {
        return Ok(());
    }
    // Few events for the largest files.
    let long = fs.iter().any(|f| f.src.len() > 30_000);
    let mut pool: Vec<Node> = objs
        .into_iter()
        .enumerate()
        .map(|(i, obj)| Node { members: vec![i], obj, disk: None, from: None })
        .collect();
    for n in &mut pool {
        j.on_node(fs, n)?;
        if !long && chance(2, 3) {
            through_disk(fs, n, coin(), j)?;
        }
    }
    let mut crashes = 0;
    let mut budget = if long { 5 } else { 40 };
    while budget > 0 {
        budget -= 1;
        tick(1);
        let k = weighted(&[if pool.len() > 1 { 6 } else { 0 }, 3, 1, if pool.len() == 1 { 4 } else { 0 }]);
        sched(k as u64);
        match k {
            0 => {
                let a = below(pool.len() as u64) as usize;
                let mut b = below(pool.len() as u64 - 1) as usize;
                if b >= a {
                    b += 1;
                }
                let (na, nb) = (pool[a].clone(), pool[b].clone());
                sched((a * 8 + b) as u64);
                trace(|| format!("link {:?} with {:?}", na.members, nb.members));
                let (x, y) = (na.obj.clone(), nb.obj.clone());
                let r = ObjectFile::link(x, y);
                mix(r.is_ok() as u64);
                j.on_link(fs, &na, &nb, &r)?;
                match r {
                    Ok(obj) => {
                        let mut members = na.members.clone();
                        members.extend(&nb.members);
                        let (hi, lo) = (a.max(b), a.min(b));
                        pool.remove(hi);
                        pool.remove(lo);
                        state(members.iter().fold(0, |h, &m| h << 3 | m as u64 + 1));
                        let n = Node { members, obj, disk: None, from: Some(Box::new((na, nb))) };
                        j.on_node(fs, &n)?;
                        pool.push(n);
                    }
                    Err(_) => {
                        // The link step of the build fails; the files go on.
                        if coin() {
                            let i = if coin() { a } else { b };
                            pool.remove(i);
                        }
                    }
                }
            }
            1 => {
                let i = below(pool.len() as u64) as usize;
                let text = coin();
                trace(|| format!("store {:?} as {}", pool[i].members, if text { "text" } else { "binary" }));
                through_disk(fs, &mut pool[i], text, j)?;
            }
            2 => {
                if crashes < 4 {
                    crashes += 1;
                    fault("crash and restart of the build");
                    trace(|| "crash: memory is lost, stored objects are read back".into());
                    let mut out = vec![];
                    for n in std::mem::take(&mut pool) {
                        revert(n, &mut out);
                    }
                    for n in &mut out {
                        if let Some(b) = &n.disk {
                            if let Some(o) = restore(b) {
                                n.obj = o;
                            }
                        }
                    }
                    pool = out;
                }
            }
            _ => break,
        }
    }
    Ok(())
}
fn shape(fs: &[File]) {
    for f in fs {
        for b in f.src.bytes() {
            mix(b as u64);
        }
        sched(f.src.len() as u64);
    }
}

// ---- C17, C18 ----

fn n_lines(o: &ObjectFile) -> usize {
    o.symbol_table().and_then(|s| s.source_info()).map_or(0, |s| s.source().len())
}
struct RoundTrip {
    text: bool,
    done: u64,
}
fn differs(a: &ObjectFile, b: &ObjectFile) -> &'static str {
    if !a.addr_iter().eq(b.addr_iter()) {
        return "image";
    }
    match (a.symbol_table(), b.symbol_table()) {
        (None, None) => "unobservable",
        (Some(_), None) | (None, Some(_)) => "symbol-table-presence",
        (Some(x), Some(y)) => {
            let l = |s: &lc3_ensemble::asm::SymbolTable| s.label_iter().map(|(n, a, e)| (n.to_string(), a, e)).collect::<BTreeSet<_>>();
            if l(x) != l(y) {
                return "labels";
            }
            if x.source_info() != y.source_info() {
                return "source-text";
            }
            if !x.line_iter().eq(y.line_iter()) {
                return "line-table";
            }
            if x.label_iter().any(|(n, ..)| x.get_label_source(n) != y.get_label_source(n)) {
                return "label-spans";
            }
            "relocations"
        }
    }
}
impl RoundTrip {
    fn check(&mut self, o: &ObjectFile) -> Res {
        self.done += 1;
        let b = save(o, self.text);
        let Some(r) = restore(&b) else {
            return viol("rejected", format!("reading back what was written is rejected: {:.600}", format!("{b:?}")));
        };
        if r != *o {
            let w = differs(o, &r);
            return viol(format!("changed:{w}"), format!("the object read back differs in its {w} from {:.600}", format!("{b:?}")));
        }
        // Once more, in the other format first.
        if n_lines(o) > 30_000 {
            nontrivial();
            return Ok(());
        }
        if let Ok(Some(x)) = guarded(|| restore(&save(o, !self.text))) {
            if x == *o {
                let again = restore(&save(&x, self.text));
                ensure!(again.as_ref() == Some(o), "changed:second-trip", "the object is lost on a second trip");
            }
        }
        nontrivial();
        Ok(())
    }
}
impl Judge for RoundTrip {
    fn on_node(&mut self, _: &[File], n: &Node) -> Res {
        self.check(&n.obj)
    }
}
fn round_trip(text: bool) -> Res {
    let o = Opts { files: range(1, 3), conflicts: false, unicode: true, always_debug: false, huge: true };
    let mut fs = files(&o);
    if chance(1, 8000) {
        // A label too long for a column.
        let name = "L".repeat(66_000);
        let f = File { src: format!(".orig x3000\n{name} HALT\n.end\n"), debug: true, ..Default::default() };
        if let Ok(obj) = build(&f) {
            probe("labels of more than 65535 bytes");
            fs.push((f, obj));
        }
    }
    let (fs, objs): (Vec<_>, Vec<_>) = fs.into_iter().unzip();
    shape(&fs);
    let mut j = RoundTrip { text, done: 0 };
    life(&fs, objs, &mut j)?;
    probe_n("objects written and read back", j.done);
    Ok(())
}
pub fn c17() -> Res {
    round_trip(false)
}
pub fn c18() -> Res {
    round_trip(true)
}

// ---- C20 ----

struct LinkJudge;
pub fn image_of(o: &ObjectFile) -> Res<BTreeMap<u16, Option<u16>>> {
    let mut m = BTreeMap::new();
    for (a, v) in o.addr_iter() {
        ensure!(m.insert(a, v).is_none(), "image", "address x{a:04X} is defined twice");
    }
    Ok(m)
}
fn image_diff(got: &BTreeMap<u16, Option<u16>>, want: &BTreeMap<u16, Option<u16>>) -> Option<String> {
    let f = |v: Option<&Option<u16>>| match v {
        None => "not defined".to_string(),
        Some(None) => "reserved".to_string(),
        Some(Some(w)) => format!("x{w:04X}"),
    };
    want.keys()
        .chain(got.keys())
        .find(|a| got.get(a) != want.get(a))
        .map(|a| format!("x{a:04X} is {}, expected {}", f(got.get(a)), f(want.get(a))))
}
fn linker_info(o: &ObjectFile) -> Option<BTreeMap<u16, String>> {
    let t = guarded(|| TextFormat::serialize(o)).ok()?;
    let mut m = BTreeMap::new();
    let mut on = false;
    for l in t.lines() {
        if l.starts_with('.') {
            on = l == ".LINKER_INFO";
            continue;
        }
        if on {
            if let Some((a, n)) = l.split_once(" | ") {
                if let Ok(a) = u16::from_str_radix(a, 16) {
                    m.insert(a, n.trim().to_string());
                }
            }
        }
    }
    Some(m)
}
impl Judge for LinkJudge {
    fn on_link(&mut self, fs: &[File], a: &Node, b: &Node, r: &Result<ObjectFile, AsmErr>) -> Res {
        let ms: Vec<&File> = a.members.iter().chain(&b.members).map(|&i| &fs[i]).collect();
        match (conflict(&ms), r) {
            (None, Err(e)) => viol("rejected", format!("linking {:?} with {:?} fails with \"{e}\" though nothing conflicts", a.members, b.members)),
            (Some(c), Ok(_)) => viol("accepted", format!("linking {:?} with {:?} succeeds though {c}", a.members, b.members)),
            (Some(_), Err(_)) => {
                probe("conflicting links rejected");
                nontrivial();
                Ok(())
            }
            (None, Ok(_)) => {
                nontrivial();
                Ok(())
            }
        }
    }
    fn on_node(&mut self, fs: &[File], n: &Node) -> Res {
        let ms: Vec<&File> = n.members.iter().map(|&i| &fs[i]).collect();
        let want = link_model(&ms);
        let got = image_of(&n.obj)?;
        if let Some(d) = image_diff(&got, &want.image) {
            return viol("image", format!("in the link of {:?}: {d}", n.members));
        }
        let Some(sym) = n.obj.symbol_table() else {
            return viol("symbols", format!("the link of {:?} has no symbol table", n.members));
        };
        let labels: BTreeMap<String, (u16, bool)> = sym.label_iter().map(|(k, a, e)| (k.to_string(), (a, e))).collect();
        if labels != want.labels && n.members.len() > 1 {
            return viol("labels", format!("in the link of {:?} the labels are {labels:04x?}, expected {:04x?}", n.members, want.labels));
        }
        if let Some(rels) = linker_info(&n.obj) {
            if rels != want.rels && n.members.len() > 1 {
                return viol("relocations", format!("in the link of {:?} the pending relocations are {rels:04x?}, expected {:04x?}", n.members, want.rels));
            }
        }
        // The pending relocations, judged by what resolving them does.
        if !want.rels.is_empty() && chance(1, 3) {
            let name = want.rels.values().nth(below(want.rels.len() as u64) as usize).expect("nonempty").clone();
            let at = pick(&[0x5A5Au16, 0x0001, 0xFE00, 0xFFFF]);
            let f = File { src: format!(".orig x{at:04X}\n{name}\n.end\n"), debug: true, ..Default::default() };
            if let Ok(d) = build(&f) {
                let flip = coin();
                let r = if flip { ObjectFile::link(d, n.obj.clone()) } else { ObjectFile::link(n.obj.clone(), d) };
                let Ok(r) = r else {
                    return viol("rejected", format!("linking {:?} with a definition of {name} fails", n.members));
                };
                let mut image = want.image.clone();
                for (&a, l) in &want.rels {
                    if *l == name {
                        image.insert(a, Some(at));
                    }
                }
                if let Some(d) = image_diff(&image_of(&r)?, &image) {
                    return viol("image", format!("after linking {:?} with a definition of {name} at x{at:04X}: {d}", n.members));
                }
                probe("pending relocations resolved by a later definition");
            }
        }
        Ok(())
    }
}
pub fn c20() -> Res {
    let o = Opts { files: range(2, 5), conflicts: true, unicode: true, always_debug: true, huge: chance(1, 4) };
    let (fs, objs): (Vec<_>, Vec<_>) = files(&o).into_iter().unzip();
    if objs.is_empty() {
        return Ok(());
    }
    // What one file assembles to is not about linking (C01 judges it).
    for (f, obj) in fs.iter().zip(&objs) {
        if image_diff(&image_of(obj)?, &f.image).is_some() {
            probe("worlds with a wrongly assembled file (not judged here)");
            return Ok(());
        }
    }
    shape(&fs);
    life(&fs, objs, &mut LinkJudge)
}

// ---- C21 ----

struct ExternJudge;
fn fresh() -> Simulator {
    Simulator::new(SimFlags { machine_init: known(0x7777), ..Default::default() })
}
impl Judge for ExternJudge {
    fn on_node(&mut self, fs: &[File], n: &Node) -> Res {
        let ms: Vec<&File> = n.members.iter().map(|&i| &fs[i]).collect();
        let want = link_model(&ms);
        let all: Vec<(u16, &String)> = ms.iter().flat_map(|f| f.rels.iter().map(|(&a, l)| (a, l))).collect();
        if all.is_empty() {
            return Ok(());
        }
        nontrivial();
        let mut s = fresh();
        let r = s.load_obj_file(&n.obj);
        let name = err_name(&r);
        mix(name.len() as u64);
        let what = |a: u16, l: &str| format!("the .fill at x{a:04X} refers to the external {l}");
        if let Some((&a, l)) = want.rels.iter().next() {
            probe("loads with unresolved externals attempted");
            match r {
                Err(SimErr::UnresolvedExternal(_)) => {}
                Ok(()) => {
                    return viol(
                        "silent",
                        format!("loading {:?} succeeds, but {} and no file defines it (debug symbols: {:?})", n.members, what(a, l), ms.iter().map(|f| f.debug).collect::<Vec<_>>()),
                    )
                }
                Err(_) => return viol("wrong-error", format!("loading {:?} fails with {name}, but {}", n.members, what(a, l))),
            }
            return Ok(());
        }
        // Everything that is referred to is defined.
        let got = image_of(&n.obj)?;
        for (a, l) in all {
            let v = want.labels[l].0;
            if got.get(&a) == Some(&Some(v)) {
                continue;
            }
            // A file assembled without debug symbols and without pending references has no labels.
            let unlabelled = ms.iter().filter(|f| f.defs.contains_key(l)).all(|f| !f.debug && f.rels.is_empty());
            if unlabelled && matches!(r, Err(SimErr::UnresolvedExternal(_))) {
                // Reported loudly, but not resolved.
                return viol(
                    "definer-without-symbols",
                    format!("{} and {l} is defined in a file assembled without debug symbols: the link of {:?} does not resolve it", what(a, l), n.members),
                );
            }
            return viol(
                "unresolved",
                format!("{}, defined at x{v:04X} by the linked files {:?}, but the word holds {:04x?}; loading gives {name}", what(a, l), n.members, got.get(&a)),
            );
        }
        // An external that nothing refers to may still keep the file from loading.
        let labelled = |f: &&&File| f.debug || !f.rels.is_empty();
        let pending = ms.iter().filter(labelled).flat_map(|f| &f.exts).any(|e| !ms.iter().filter(labelled).any(|f| f.defs.contains_key(e)));
        if !pending {
            ensure!(r.is_ok(), "load", "loading {:?} fails with {name} though every external is resolved", n.members);
            for f in &ms {
                for (&a, l) in &f.rels {
                    let v = want.labels[l].0;
                    ensure!(s.mem[a].get() == v, "load", "after loading, x{a:04X} holds x{:04X}, {l} is at x{v:04X}", s.mem[a].get());
                }
            }
            probe("loads with every external resolved");
        }
        Ok(())
    }
}
pub fn c21() -> Res {
    let o = Opts { files: range(1, 4), conflicts: false, unicode: true, always_debug: coin(), huge: false };
    let (fs, objs): (Vec<_>, Vec<_>) = files(&o).into_iter().unzip();
    if objs.is_empty() {
        return Ok(());
    }
    shape(&fs);
    life(&fs, objs, &mut ExternJudge)
}

// ---- C22 ----

struct DebugJudge;
impl Judge for DebugJudge {
    fn on_node(&mut self, fs: &[File], n: &Node) -> Res {
        if n.members.len() < 2 {
            return Ok(());
        }
        let ms: Vec<&File> = n.members.iter().map(|&i| &fs[i]).collect();
        let want = link_model(&ms);
        let Some(sym) = n.obj.symbol_table() else {
            return viol("symbols", "a link of files with symbol tables has none");
        };
        let Some(src) = sym.source_info() else {
            return viol("source", "a link of files with debug symbols has no source");
        };
        nontrivial();
        for (&a, text) in &want.lines {
            let got = sym.rev_lookup_line(a).and_then(|l| src.read_line(l));
            if got == Some(text) {
                continue;
            }
            return viol("line", format!("in the link of {:?} the line of x{a:04X} reads {got:?}, in its file it reads {text:?}", n.members));
        }
        for (&a, _) in want.image.iter().take(400) {
            if !want.lines.contains_key(&a) {
                if let Some(l) = sym.rev_lookup_line(a) {
                    return viol("line", format!("in the link of {:?} line {l} is reported for x{a:04X}, where no statement starts", n.members));
                }
            }
        }
        for (l, ..) in sym.label_iter() {
            let Some(sp) = sym.get_label_source(l) else {
                return viol("span", format!("no source span for {l}"));
            };
            let text = src.source().get(sp.clone());
            if text.map(|t| t.to_uppercase()) != Some(l.to_string()) {
                return viol("span", format!("in the link of {:?} the span {sp:?} of {l} covers {text:?}", n.members));
            }
        }
        probe_n("lines and labels looked up", (want.lines.len() + want.labels.len()) as u64);
        Ok(())
    }
}
pub fn c22() -> Res {
    let o = Opts { files: range(2, 5), conflicts: false, unicode: true, always_debug: true, huge: chance(1, 4) };
    let (fs, objs): (Vec<_>, Vec<_>) = files(&o).into_iter().unzip();
    shape(&fs);
    life(&fs, objs, &mut DebugJudge)
}

// ---- C29 ----

pub fn c29() -> Res {
    let init = match below(3) {
        0 => known(word()),
        1 => MachineInitStrategy::Seeded { seed: below(1 << 20) },
        _ => MachineInitStrategy::Unseeded,
    };
    let flags = SimFlags { strict: coin(), use_real_traps: coin(), machine_init: init, debug_frames: coin(), ignore_privilege: coin() };
    trace(|| format!("{flags:?}"));
    let mut s = Simulator::new(flags);
    let os = lc3_ensemble::sim::_os_obj_file();
    for (a, v) in os.addr_iter() {
        if let Some(v) = v {
            ensure!(s.mem[a].get() == v && s.mem[a].is_init(), "os-image", "x{a:04X} of a new simulator holds x{:04X}, the OS image has x{v:04X}", s.mem[a].get());
        }
    }
    for a in 0xFE00..=0xFFFFu16 {
        ensure!(s.mem[a].get() == 0, "io-page", "x{a:04X} of a new simulator holds x{:04X}", s.mem[a].get());
    }
    nontrivial();
    let o = Opts { files: range(1, 3), conflicts: false, unicode: false, always_debug: coin(), huge: true };
    let fs = files(&o);
    for (f, _) in &fs {
        shape(std::slice::from_ref(f));
    }
    let mut todo: Vec<(Vec<&File>, ObjectFile)> = fs.iter().map(|(f, o)| (vec![f], o.clone())).collect();
    if todo.len() > 1 && coin() {
        let ((fa, a), (fb, b)) = (&fs[0], &fs[1]);
        if let Ok(l) = ObjectFile::link(a.clone(), b.clone()) {
            todo.push((vec![fa, fb], l));
        }
    }
    if chance(1, 40) {
        // A block that spans much of memory: long runs of words and of reservations.
        let mut src = format!(".orig x{:04X}\n", pick(&[0x0000u16, 0x0200, 0x3000, word() & 0x3FFF]));
        for _ in 0..range(1, 4) {
            let n = range(1, pick(&[300u64, 0x1800, 0x4400]));
            match below(3) {
                0 => src.push_str(&format!(".blkw {n}\n")),
                _ => src.push_str(&format!(".stringz \"{}\"\n", pick(&["A", "~", "abcdefg", "0"]).repeat(n as usize))),
            }
        }
        src.push_str(".end\n");
        if let Ok(o) = parse_ast(&src).map_err(|_| ()).and_then(|ast| lc3_ensemble::asm::assemble(ast).map_err(|_| ())) {
            probe("blocks that span much of memory");
            todo.insert(0, (vec![], o));
        }
    }
    for _ in 0..range(1, 4) {
        if todo.is_empty() {
            break;
        }
        // History between loads.
        match below(4) {
            0 => {
                let n = range(1, 30);
                let _ = s.run_with_limit(n);
                tick(n);
                fault("program executed between loads");
            }
            1 => {
                for _ in 0..range(1, 6) {
                    let a = if coin() { 0x3000 + below(64) as u16 } else { word() };
                    if coin() {
                        s.mem[a].set(word())
                    } else {
                        s.mem[a].clear_init()
                    }
                }
                fault("memory overwritten by the host between loads");
            }
            2 => {
                s.reset();
                fault("machine reset between loads");
            }
            _ => {}
        }
        let i = below(todo.len() as u64) as usize;
        let (ms, obj) = &todo[i];
        // What the file contains is asked of the file; C01 and C20 judge that.
        let image = image_of(obj)?;
        let before: Vec<(u16, bool)> = (0..=0xFFFFu16).map(|a| (s.mem[a].get(), s.mem[a].is_init())).collect();
        let regs = REGS.map(|r| s.reg_file[r]);
        let (pc, psr) = (s.pc, s.psr().get());
        let r = s.load_obj_file(obj);
        tick(1);
        sched(i as u64);
        trace(|| format!("load {:?}: {}", ms.iter().map(|f| &f.blocks).collect::<Vec<_>>(), err_name(&r)));
        if r.is_err() {
            let ext = obj.symbol_table().is_some_and(|t| t.label_iter().any(|l| l.2));
            ensure!(ext, "load-error", "loading a file without externals fails with {}", err_name(&r));
            continue;
        }
        probe("files loaded");
        for a in 0..=0xFFFFu16 {
            let (v, init) = (s.mem[a].get(), s.mem[a].is_init());
            let (v0, init0) = before[a as usize];
            match image.get(&a) {
                Some(Some(w)) => ensure!(v == *w && init, "word", "x{a:04X} holds x{v:04X} (init {init}), the file says x{w:04X}"),
                Some(None) => ensure!(!init && v == v0, "reserved", "reserved x{a:04X} holds x{v:04X} (init {init}), held x{v0:04X}"),
                None => ensure!(
                    v == v0 && init == init0,
                    "outside",
                    "x{a:04X} outside the file changed from x{v0:04X} (init {init0}) to x{v:04X} (init {init})"
                ),
            }
        }
        ensure!(REGS.map(|r| s.reg_file[r]) == regs, "regs", "loading changed a register");
        ensure!(s.pc == pc && s.psr().get() == psr, "pc", "loading changed the PC or PSR");
        for (&a, v) in &image {
            mix(a as u64 | (v.unwrap_or(0) as u64) << 16);
            state(a as u64 >> 4);
        }
    }
    Ok(())
}

// ---- C19 ----

fn edge64() -> u64 {
    match below(8) {
        0 => u64::MAX,
        1 => u64::MAX - below(9),
        2 => 1 << 63,
        3 => (1 << 63) - 1,
        4 => u32::MAX as u64,
        5 => 0,
        6 => below(64),
        _ => 1 << below(64),
    }
}
fn edge16() -> u16 {
    match below(6) {
        0 => pick(&[0x0000u16, 0xFFFF, 0xFE00, 0xFDFF, 0x3000, 0x8000, 0x7FFF, 0x2FFF, 0xFFFE]),
        1 => 0xFFFFu16.wrapping_sub(below(40) as u16),
        2 => below(40) as u16,
        _ => word(),
    }
}
/// A well-formed chunk with extreme contents.
fn chunk(names: &[String], out: &mut Vec<u8>) {
    let name = |n: &mut Vec<u8>| {
        if names.is_empty() || chance(1, 4) {
            n.extend(pick(&["", "A", "x3000", "\u{df}", "a b", " | ", "A\nB", "==="]).as_bytes());
        } else {
            n.extend(names[below(names.len() as u64) as usize].as_bytes());
        }
    };
    let k = below(5) as u8;
    out.push(k);
    match k {
        0 => {
            let len = match weighted(&[6, 1, 1, 1]) {
                0 => below(12) as u16,
                1 => 0xFFFF,
                2 => 0x8000,
                _ => word(),
            };
            out.extend(edge16().to_le_bytes());
            out.extend(len.to_le_bytes());
            let mixed = below(3);
            let w = word();
            for i in 0..len {
                if mixed == 0 || mixed == 1 && i % 3 == 0 {
                    out.push(0xFF);
                    out.extend(w.to_le_bytes());
                } else {
                    out.extend([pick(&[0u8, 0, 1]), 0, 0]);
                }
            }
            fault("forged block");
        }
        1 => {
            out.extend(edge16().to_le_bytes());
            out.push(pick(&[0u8, 1, 0xFF]));
            out.extend(edge64().to_le_bytes());
            let mut n = vec![];
            name(&mut n);
            out.extend((n.len() as u64).to_le_bytes());
            out.extend(n);
            fault("forged label");
        }
        2 => {
            out.extend(edge64().to_le_bytes());
            let len = below(5) as u16;
            out.extend(len.to_le_bytes());
            let mut a = edge16();
            for _ in 0..len {
                out.extend(a.to_le_bytes());
                a = a.wrapping_add(1 + below(3) as u16);
            }
            fault("forged line block");
        }
        3 => {
            let t = pick(&["", "x", "a\nb", "\n\n\n", "\u{e9}\n"]);
            out.extend((t.len() as u64).to_le_bytes());
            out.extend(t.as_bytes());
            fault("forged source text");
        }
        _ => {
            out.extend(edge16().to_le_bytes());
            let mut n = vec![];
            name(&mut n);
            out.extend((n.len() as u64).to_le_bytes());
            out.extend(n);
            fault("forged relocation");
        }
    }
}
/// Splits a valid binary object into its header and chunks.
fn chunks(b: &[u8]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut p = 7;
    let u16at = |p: usize| b.get(p..p + 2).map(|x| u16::from_le_bytes([x[0], x[1]]) as usize);
    let u64at = |p: usize| b.get(p..p + 8).map(|x| u64::from_le_bytes(x.try_into().expect("8 bytes")) as usize);
    while p < b.len() {
        let l = match b[p] {
            0 => u16at(p + 3).map(|n| 5 + 3 * n),
            1 => u64at(p + 12).and_then(|n| n.checked_add(20)),
            2 => u16at(p + 9).map(|n| 11 + 2 * n),
            3 => u64at(p + 1).and_then(|n| n.checked_add(9)),
            4 => u64at(p + 3).and_then(|n| n.checked_add(11)),
            _ => None,
        };
        match l {
            Some(l) if l <= b.len() - p => {
                v.push((p, l));
                p += l;
            }
            _ => break,
        }
    }
    v
}
const SECTOR: usize = 64;
fn damage_bin(b: &mut Vec<u8>, old: &[u8], names: &[String]) {
    let cs = chunks(b);
    match weighted(&[4, 3, 2, 2, 2, 2, 6, 4, 3]) {
        0 => {
            for _ in 0..=below(3) {
                if !b.is_empty() {
                    let i = below(b.len() as u64) as usize;
                    b[i] ^= 1 << below(8);
                }
            }
            fault("bit flips");
        }
        1 => {
            let n = below(b.len() as u64 + 1) as usize;
            b.truncate(n);
            fault("torn write (truncated)");
        }
        2 => {
            let s = below((b.len() / SECTOR + 1) as u64) as usize * SECTOR;
            let e = (s + SECTOR).min(b.len());
            b[s..e].fill(0);
            fault("lost sector (reads zeros)");
        }
        3 => {
            let n = below(b.len() as u64 + 1) as usize;
            b.truncate(n);
            b.extend_from_slice(old.get(n..).unwrap_or(&[]));
            fault("torn write (stale tail)");
        }
        4 => {
            let s = below((b.len() / SECTOR + 1) as u64) as usize * SECTOR;
            let e = (s + SECTOR).min(b.len());
            let d = b[s..e].to_vec();
            let at = if coin() { e } else { b.len() };
            b.splice(at..at, d);
            fault("duplicated sector");
        }
        5 => {
            let n = b.len() / SECTOR;
            if n >= 2 {
                let (i, j) = (below(n as u64) as usize * SECTOR, below(n as u64) as usize * SECTOR);
                for k in 0..SECTOR {
                    b.swap(i + k, j + k);
                }
            }
            fault("swapped sectors");
        }
        6 => {
            let mut c = vec![];
            chunk(names, &mut c);
            let at = cs.get(below(cs.len() as u64 + 1) as usize).map_or(b.len(), |c| c.0);
            b.splice(at..at, c);
        }
        7 => {
            if !cs.is_empty() {
                let (p, l) = cs[below(cs.len() as u64) as usize];
                match below(3) {
                    0 => {
                        // An extreme value in one of the chunk's own fields.
                        let (off, wide) = match b[p] {
                            0 => (pick(&[1usize, 3]), false),
                            1 => pick(&[(1usize, false), (4, true), (12, true)]),
                            2 => pick(&[(1usize, true), (9, false), (11, false)]),
                            3 => (1, true),
                            _ => pick(&[(1usize, false), (3, true)]),
                        };
                        if wide && off + 8 <= l {
                            b[p + off..p + off + 8].copy_from_slice(&edge64().to_le_bytes());
                        } else if off + 2 <= l {
                            b[p + off..p + off + 2].copy_from_slice(&edge16().to_le_bytes());
                        }
                        fault("extreme field value");
                    }
                    1 => {
                        let d = b[p..p + l].to_vec();
                        b.extend(d);
                        fault("duplicated chunk");
                    }
                    _ => {
                        b.drain(p..p + l);
                        fault("lost chunk");
                    }
                }
            }
        }
        _ => {
            for _ in 0..=below(20) {
                let i = below(b.len() as u64 + 1) as usize;
                let v = below(256) as u8;
                if i < b.len() && coin() {
                    b[i] = v
                } else {
                    b.insert(i, v)
                }
            }
            fault("arbitrary bytes");
        }
    }
}
fn text_token() -> String {
    match below(12) {
        0 => "????".into(),
        1 => "FFFF".into(),
        2 => "0000".into(),
        3 => "65535".into(),
        4 => format!("{}", edge64()),
        5 => "-1".into(),
        6 => "+123".into(),
        7 => "18446744073709551616".into(),
        8 => format!("{:04X}", edge16()),
        9 => "\u{e9}\u{e9}".into(),
        10 => pick(&["\\u{110000}", "\\u{}", "\\", "\\x", "\\u{d800}", "\\x80", "\\0", "\\777", "\\u{", "\\u", "\\q"]).into(),
        _ => "".into(),
    }
}
fn text_line(names: &[String]) -> String {
    let n = if names.is_empty() || coin() { text_token() } else { names[below(names.len() as u64) as usize].clone() };
    match below(12) {
        0 => pick(&[".TEXT", ".SYMBOL", ".LINKER_INFO", ".DEBUG", ".OTHER", "."]).into(),
        1 => "====================".into(),
        2 => "=".into(),
        3 => "LINE | ADDR | SOURCE".into(),
        4 => "ADDR | EXT | LABEL".into(),
        5 => "ADDR | LABEL".into(),
        6 => "LABEL | INDEX".into(),
        7 => format!("{:04X} | {} | {n}", edge16(), pick(&["0", "1", "255", "256"])),
        8 => format!("{:04X} | {n}", edge16()),
        9 => format!("{n} | {}", text_token()),
        10 => format!("{} | {} | {}", below(12), text_token(), text_token()),
        _ => text_token(),
    }
}
fn damage_text(t: &mut String, old: &str, names: &[String]) {
    let mut ls: Vec<String> = t.split('\n').map(|s| s.to_string()).collect();
    let n = ls.len() as u64;
    match weighted(&[3, 3, 3, 4, 4, 2, 2, 3, 3]) {
        0 => {
            ls.remove(below(n) as usize);
            fault("lost line");
        }
        1 => {
            let l = ls[below(n) as usize].clone();
            ls.insert(below(n + 1) as usize, l);
            fault("duplicated line");
        }
        2 => {
            ls.swap(below(n) as usize, below(n) as usize);
            fault("swapped lines");
        }
        3 => {
            ls.insert(below(n + 1) as usize, text_line(names));
            fault("forged line");
        }
        4 => {
            let i = below(n) as usize;
            let mut cols: Vec<String> = ls[i].split(" | ").map(|s| s.to_string()).collect();
            let c = below(cols.len() as u64) as usize;
            cols[c] = text_token();
            ls[i] = cols.join(" | ");
            fault("extreme field value");
        }
        5 => {
            let k = below(n + 1) as usize;
            ls.truncate(k);
            fault("torn write (truncated)");
        }
        6 => {
            let k = below(n + 1) as usize;
            ls.truncate(k);
            ls.extend(old.split('\n').skip(k).map(|s| s.to_string()));
            fault("torn write (stale tail)");
        }
        7 => {
            // One row cut or joined.
            let i = below(n) as usize;
            let cut = below(ls[i].chars().count() as u64 + 1) as usize;
            ls[i] = if coin() { ls[i].chars().take(cut).collect() } else { ls[i].chars().skip(cut).collect() };
            fault("row cut short");
        }
        _ => {
            let mut b = ls.join("\n").into_bytes();
            for _ in 0..=below(6) {
                if !b.is_empty() {
                    let i = below(b.len() as u64) as usize;
                    if coin() {
                        b[i] ^= 1 << below(8)
                    } else {
                        b[i] = pick(b"\\|=.?#{}u0A\n\r\t \"'")
                    }
                }
            }
            fault("bit flips");
            *t = String::from_utf8_lossy(&b).into_owned();
            return;
        }
    }
    *t = ls.join("\n");
}

pub fn c19() -> Res {
    let o = Opts { files: range(1, 3), conflicts: true, unicode: true, always_debug: coin(), huge: chance(1, 12) };
    let (fs, objs): (Vec<_>, Vec<_>) = files(&o).into_iter().unzip();
    if objs.is_empty() {
        return Ok(());
    }
    let names: Vec<String> = fs.iter().flat_map(|f| f.defs.keys().chain(&f.exts).cloned()).collect();
    let mut base = objs[below(objs.len() as u64) as usize].clone();
    if objs.len() > 1 && coin() {
        if let Ok(Ok(l)) = guarded(|| ObjectFile::link(objs[0].clone(), objs[1].clone())) {
            base = l;
        }
    }
    let text = coin();
    // Serialising an assembled file is C17's and C18's business.
    let Ok(b) = guarded(|| save(&base, text)) else { return Ok(()) };
    let Ok(old) = guarded(|| save(&objs[0], text)) else { return Ok(()) };
    let damaged = match (b, old) {
        (Blob::Bin(mut b), Blob::Bin(old)) => {
            for _ in 0..range(1, 4) {
                span(|| damage_bin(&mut b, &old, &names));
            }
            if chance(1, 40) {
                b = (0..below(200)).map(|_| below(256) as u8).collect();
                if coin() {
                    b.splice(0..0, *b"obj\x21\x10\x00\x01");
                }
                fault("unrelated file contents");
            }
            Blob::Bin(b)
        }
        (Blob::Text(mut t), Blob::Text(old)) => {
            for _ in 0..range(1, 4) {
                span(|| damage_text(&mut t, &old, &names));
            }
            if chance(1, 40) {
                t = String::from("LC-3 OBJ FILE\n");
                for _ in 0..below(20) {
                    t.push_str(&text_line(&names));
                    t.push('\n');
                }
                fault("unrelated file contents");
            }
            Blob::Text(t)
        }
        _ => return Ok(()),
    };
    trace(|| match &damaged {
        Blob::Bin(b) => format!("damaged binary: {b:02x?}"),
        Blob::Text(t) => format!("damaged text:\n{t}"),
    });
    let h = match &damaged {
        Blob::Bin(b) => b.iter().fold(0u64, |h, &x| h.rotate_left(5).wrapping_add(x as u64).wrapping_mul(0x9E37_79B9)),
        Blob::Text(t) => t.bytes().fold(1u64, |h, x| h.rotate_left(5).wrapping_add(x as u64).wrapping_mul(0x9E37_79B9)),
    };
    sched(h);
    mix(h);
    tick(1);
    nontrivial();
    let Some(o) = restore(&damaged) else {
        probe("damaged files rejected");
        return Ok(());
    };
    probe("damaged files accepted");
    state(h);
    // Any panic from here on is a violation (the engine reports where).
    trace(|| "accepted; writing it in both formats".into());
    let rb = save(&o, false);
    let rt = save(&o, true);
    for b in [&rb, &rt] {
        let _ = restore(b);
    }
    for x in &objs {
        for flip in [false, true] {
            trace(|| format!("linking it {} an assembled file", if flip { "after" } else { "before" }));
            let r = if flip { ObjectFile::link(x.clone(), o.clone()) } else { ObjectFile::link(o.clone(), x.clone()) };
            if let Ok(l) = r {
                probe("damaged files linked");
                let _ = (save(&l, false), save(&l, true));
                let mut s = fresh();
                let r = s.load_obj_file(&l);
                mix(err_name(&r).len() as u64);
            }
        }
    }
    trace(|| "loading it".into());
    let mut s = Simulator::new(SimFlags { machine_init: known(0), strict: coin(), ..Default::default() });
    if s.load_obj_file(&o).is_ok() {
        probe("damaged files loaded");
    }
    Ok(())
}

// ---- C23, C24, C26: tables and errors over the life of objects ----

use super::source::{label_queries, line_queries, Lab};

struct TableJudge {
    lines: bool,
}
impl TableJudge {
    fn ask(&self, fs: &[File], n: &Node, how: &str) -> Res {
        let [i] = n.members[..] else { return Ok(()) };
        let f = &fs[i];
        let Some(sym) = n.obj.symbol_table() else { return Ok(()) };
        if self.lines {
            if f.debug {
                let lines: BTreeMap<usize, u16> = f.line_no.iter().map(|(&a, &l)| (l, a)).collect();
                line_queries(sym, &lines, f.nlines, how)?;
            }
            return Ok(());
        }
        let mut labels = BTreeMap::new();
        for (k, &a) in &f.defs {
            labels.insert(k.clone(), (a, false));
        }
        for k in &f.exts {
            labels.insert(k.clone(), (0, true));
        }
        let labels = labels
            .into_iter()
            .map(|(k, (addr, external))| {
                let (s, e) = f.pos[&k];
                (k, Lab { addr, external, both: false, first: s..e })
            })
            .collect();
        label_queries(sym, &labels, &f.src, how)
    }
}
impl Judge for TableJudge {
    fn on_node(&mut self, fs: &[File], n: &Node) -> Res {
        self.ask(fs, n, "the table as assembled")
    }
    fn on_reload(&mut self, fs: &[File], n: &Node) -> Res {
        self.ask(fs, n, "the table read back from storage")
    }
}
fn tables(lines: bool) -> Res {
    let o = Opts { files: range(1, 3), conflicts: false, unicode: chance(1, 8), always_debug: chance(3, 4), huge: chance(1, 6) };
    let (fs, objs): (Vec<_>, Vec<_>) = files(&o).into_iter().unzip();
    if objs.is_empty() {
        return Ok(());
    }
    shape(&fs);
    life(&fs, objs, &mut TableJudge { lines })
}
pub fn c23() -> Res {
    if coin() {
        tables(false)
    } else {
        super::source::source_labels()
    }
}
pub fn c24() -> Res {
    if coin() {
        tables(true)
    } else {
        super::source::source_lines()
    }
}

struct LinkErrors;
impl Judge for LinkErrors {
    fn on_link(&mut self, _: &[File], a: &Node, b: &Node, r: &Result<ObjectFile, AsmErr>) -> Res {
        use lc3_ensemble::err::Error;
        let Err(e) = r else { return Ok(()) };
        trace(|| format!("linking {:?} with {:?} fails: {e}", a.members, b.members));
        nontrivial();
        probe("failing links whose spans were read");
        // A panic is the violation.
        for s in [Some(e.span.clone()), e.span()] {
            let Some(s) = s else {
                return viol("span:none", format!("linking {:?} with {:?} fails with \"{e}\", which carries no span", a.members, b.members));
            };
            let first = s.first();
            let all: Vec<_> = s.iter().cloned().collect();
            ensure!(all.first() == Some(&first), "span:list", "the first span is {first:?}, the spans are {all:?}");
            for r in all {
                mix(r.start as u64);
                ensure!(r.start <= r.end, "span:list", "the span {r:?} ends before it starts");
            }
        }
        Ok(())
    }
}
pub fn c26() -> Res {
    if coin() {
        return super::source::source_spans();
    }
    let o = Opts { files: range(2, 5), conflicts: true, unicode: chance(1, 3), always_debug: coin(), huge: false };
    let (fs, objs): (Vec<_>, Vec<_>) = files(&o).into_iter().unzip();
    if objs.is_empty() {
        return Ok(());
    }
    shape(&fs);
    life(&fs, objs, &mut LinkErrors)
}
