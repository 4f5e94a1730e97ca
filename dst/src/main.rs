mod ctx;
mod devs;
mod engine;
mod entropy;
mod gen;
mod guard;
mod lock;
mod model;
mod objgen;
mod prog;
mod props;
mod refparse;

use engine::Prop;
use std::path::PathBuf;

const STEP_REAL: &[&str] = &[
    "lc3_ensemble::sim::Simulator (step, memory, PSR, frames, observer)",
    "DeviceHandler",
    "BufferedKeyboard",
    "BufferedDisplay",
    "built-in OS image",
];
const OBJ_REAL: &[&str] = &["parser", "assembler", "ObjectFile::link", "BinaryFormat", "TextFormat", "Simulator::load_obj_file"];
const OBJ_STUB: &[&str] = &["storage (in memory, with crashes and damage)", "the build that decides what is linked when (choice tape)", "operating-system entropy (getrandom seam)"];
const SRC_REAL: &[&str] = &["lexer", "parser", "assembler (both passes)", "SymbolTable", "ObjectFile::link", "BinaryFormat", "TextFormat"];
const SRC_STUB: &[&str] = &["the disk the source and the object files are on (in memory, with crashes and damage)", "the editor that types and saves (choice tape)", "the build that decides what is built and linked when (choice tape)", "operating-system entropy (getrandom seam)"];
const STEP_STUB: &[&str] = &["custom I/O devices and interrupt sources (scripted)", "operating-system entropy (getrandom seam)", "the host (choice tape)"];

fn table() -> Vec<Prop> {
    let step = |id, run, quick, thorough, rule| Prop {
        id,
        run,
        quick,
        thorough,
        level: "exploration",
        rule,
        time_unit: "instruction cycles",
        real: STEP_REAL,
        stub: STEP_STUB,
        assumptions: &[],
    };
    let obj = |id, run, quick, thorough, rule| Prop {
        id,
        run,
        quick,
        thorough,
        level: "exploration",
        rule,
        time_unit: "build events",
        real: OBJ_REAL,
        stub: OBJ_STUB,
        assumptions: &[],
    };
    let src = |id, run, quick, thorough, rule| Prop { stub: SRC_STUB, real: SRC_REAL, ..obj(id, run, quick, thorough, rule) };
    vec![
        step("C08", props::step::c08, 260_000, 40_000_000, "seeded machine states, generated programs and interrupt/device schedules, every step compared with the model; a run counts if a trap, exception, RTI or interrupt was taken, and two runs are the same when their executed histories (digest) are"),
        step("C09", props::privilege::c09, 100_000, 40_000_000, "seeded user-mode machines with device faults and interrupts, every step audited; a run counts if at least one step attempted something forbidden; distinct by digest of the executed history"),
        step("C10", props::transp::c10, 280_000, 40_000_000, "programs run once undisturbed and once under a seeded interrupt schedule, and boundaries audited for gating; a run counts if an interrupt was taken; distinct by digest"),
        step("C11", props::os::c11, 200_000, 40_000_000, "each OS trap called with seeded registers, strings, input, priority, lock holds and interrupts; a run counts if the routine's contract was judged to its end; distinct by digest"),
        step("C12", props::os::c12, 250_000, 40_000_000, "seeded programs run under virtual and under real traps; a run counts if both endings were compared; distinct by digest"),
        step("C13", props::run::c13, 100_000, 40_000_000, "seeded sequences of run commands against a single-stepped twin, with breakpoints, pauses, MCR clears; a run counts if a command executed more than one instruction; distinct by digest"),
        step("C14", props::strict::c14, 140_000, 40_000_000, "strict and non-strict twins in lockstep; a run counts if strict mode rejected at least one step; distinct by digest"),
        Prop {
            time_unit: "word operations",
            ..step("C15", props::words::c15, 380_000, 40_000_000, "replicas of one history of word operations that differ only in the contents of uninitialised bits; a run counts if a result was initialised in part or two initialised words were combined; distinct by digest")
        },
        step("C16", props::machine::c16, 300_000, 40_000_000, "arbitrary machine states, flags, devices and host acts; a run counts if it was driven to the end of its plan; distinct by digest"),
        step("C30", props::machine::c30, 170_000, 40_000_000, "seeded histories followed by reset and a differential against a new machine; a run counts if reset was reached; distinct by digest"),
        step("C31", props::machine::c31, 80_000, 40_000_000, "two machines given the same seeded plan under different entropy; a run counts if both histories were compared to the end; distinct by digest"),
        src("C01", props::source::c01, 140_000, 40_000_000, "versions of a source file saved to a disk that tears, loses, repeats and reorders pieces, each read back and built; a run counts if an image was compared with the reference; distinct by digest of the texts"),
        src("C02", props::source::c02, 220_000, 40_000_000, "versions of a source file with broken rules, saved to a faulty disk, each read back and built; a run counts if an acceptance was judged; distinct by digest of the texts"),
        src("C03", props::source::c03, 360_000, 40_000_000, "versions of a source file rewritten in other layouts by the tools it passes through and saved to a faulty disk, each read back and parsed; a run counts if statements were compared with the reference reader's; distinct by digest of the texts"),
        src("C04", props::source::c04, 440_000, 40_000_000, "versions of a source file with slips, saved to a faulty disk, each read back and parsed; a run counts if a parse error was judged; distinct by digest of the texts"),
        src("C05", props::source::c05, 400_000, 40_000_000, "versions of a source file whose numbers and registers are rewritten by hand and damaged on a faulty disk, each read back and parsed; a run counts if a value was judged; distinct by digest of the texts"),
        src("C25", props::source::c25, 420_000, 40_000_000, "versions of a source file read from a faulty disk, alone, in an object's debug symbols and after linking, and every line and many positions queried; a run counts if a position was judged; distinct by digest of the texts"),
        src("C36", props::source::c36, 360_000, 40_000_000, "versions of a source file that a formatter rewrites from the parsed statements between saves to a faulty disk; a run counts if a printed statement was parsed again; distinct by digest of the texts"),
        src("C23", props::objfile::c23, 260_000, 40_000_000, "tables of seeded files queried as assembled and as read back from storage, and of versions read from a faulty disk; a run counts if a label was looked up; distinct by digest of sources and events"),
        src("C24", props::objfile::c24, 280_000, 40_000_000, "line tables of seeded files queried as assembled and as read back from storage, and of versions read from a faulty disk; a run counts if a line was looked up; distinct by digest of sources and events"),
        src("C26", props::objfile::c26, 320_000, 40_000_000, "failing links in seeded orders with crashes, and failing builds of versions read from a faulty disk; a run counts if an error's spans were read; distinct by digest of sources and events"),
        obj("C17", props::objfile::c17, 150_000, 40_000_000, "seeded worlds of files assembled, stored, linked, crashed and reloaded; a run counts if an object was written and read back; distinct by digest of sources and events"),
        obj("C18", props::objfile::c18, 110_000, 40_000_000, "seeded worlds of files assembled, stored, linked, crashed and reloaded; a run counts if an object was written and read back; distinct by digest of sources and events"),
        obj("C19", props::objfile::c19, 300_000, 40_000_000, "stored files damaged by seeded storage faults and forged records, then read, rewritten, linked and loaded; a run counts if a damaged file was read; distinct by digest"),
        obj("C20", props::objfile::c20, 120_000, 40_000_000, "seeded worlds of conflicting files linked in seeded orders with crashes; a run counts if a link was judged; distinct by digest of sources and events"),
        obj("C21", props::objfile::c21, 370_000, 40_000_000, "seeded worlds with external references, loaded and linked in seeded orders; a run counts if some file refers to an external; distinct by digest of sources and events"),
        obj("C22", props::objfile::c22, 220_000, 40_000_000, "seeded worlds with debug symbols linked in seeded orders; a run counts if a linked object was judged; distinct by digest of sources and events"),
        obj("C29", props::objfile::c29, 100_000, 40_000_000, "seeded files loaded into seeded machines with host history between loads; a run counts once the new machine was checked; distinct by digest"),
        step("C27", props::step::c27, 200_000, 40_000_000, "seeded programs and interrupt schedules, frames compared with the model each step; a run counts if the depth was ever above zero; distinct by digest"),
        step("C28", props::step::c28, 280_000, 40_000_000, "seeded programs, single steps and run segments, access sets compared with the model; a run counts if a write was judged; distinct by digest"),
        step("C32", props::devices::c32, 600_000, 40_000_000, "seeded sequences of device and mapping changes with reads and writes of ports; a run counts if an I/O port was accessed; distinct by digest"),
        step("C33", props::contention::c33, 450_000, 40_000_000, "seeded programs exchanging bytes while the scheduler holds buffer locks; a run counts if it was judged after holds; distinct by digest"),
        step("C34", props::devices::c34, 500_000, 40_000_000, "seeded timers polled, disabled, reset and reseeded, alone and inside a machine; a run counts if an interrupt was raised; distinct by digest"),
    ]
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    engine::install_panic_hook();
    if std::env::var_os("DST_CHILD").is_some() {
        engine::limit_memory();
    }
    let props = table();
    let root = PathBuf::from(std::env::var("DST_ROOT").unwrap_or_else(|_| {
        let e = std::env::current_exe().unwrap();
        // <root>/dst/target/release/dst
        e.ancestors().nth(4).unwrap().display().to_string()
    }));
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no property {id}");
        std::process::exit(2)
    });
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a[1..] {
        ["check", id] if std::env::var_os("DST_CHILD").is_none() => engine::supervise(&root, find(id)),
        ["check", id] => engine::check(&root, find(id)),
        ["replay", f] => engine::replay(&props, &PathBuf::from(f)),
        ["digests", id, n, w] => {
            engine::digests(find(id), n.parse().unwrap(), w.parse().unwrap());
            0
        }
        ["one", id, i] => engine::one(find(id), i.parse().unwrap()),
        ["list"] => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: dst check ID | replay FILE | digests ID N WORKERS | one ID INDEX | list");
            2
        }
    };
    std::process::exit(code);
}
