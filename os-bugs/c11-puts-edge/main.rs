#![allow(unused, dead_code)]
use lc3_ensemble::asm::encoding::{BinaryFormat, ObjFileFormat, TextFormat};
use lc3_ensemble::asm::{assemble, assemble_debug, ObjectFile};
use lc3_ensemble::ast::Reg::{self, *};
use lc3_ensemble::parse::parse_ast;
use lc3_ensemble::sim::debug::*;
use lc3_ensemble::sim::device::*;
use lc3_ensemble::sim::frame::*;
use lc3_ensemble::sim::mem::*;
use lc3_ensemble::sim::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

fn asm(src: &str) -> ObjectFile {
    assemble_debug(parse_ast(src).unwrap(), src).unwrap()
}
fn zeroed() -> SimFlags {
    SimFlags { machine_init: MachineInitStrategy::Known { value: 0 }, ..Default::default() }
}
fn machine(flags: SimFlags, src: &str) -> Simulator {
    let mut sim = Simulator::new(flags);
    sim.load_obj_file(&asm(src)).unwrap();
    sim
}
/// A device that raises an interrupt (vector, priority) at the polls where its script says so.
struct Script(Vec<Option<(u8, u8)>>, usize);
impl ExternalDevice for Script {
    fn io_read(&mut self, _: u16, _: bool) -> Option<u16> { None }
    fn io_write(&mut self, _: u16, _: u16) -> bool { false }
    fn io_reset(&mut self) {}
    fn poll_interrupt(&mut self) -> Option<Interrupt> {
        let i = self.1;
        self.1 += 1;
        let (v, p) = self.0.get(i).copied().flatten()?;
        Some(Interrupt::vectored(v, p))
    }
}
fn io(sim: &mut Simulator) -> (BufferedKeyboard, BufferedDisplay) {
    let (k, d) = (BufferedKeyboard::default(), BufferedDisplay::default());
    sim.device_handler.set_keyboard(k.clone());
    sim.device_handler.set_display(d.clone());
    (k, d)
}
fn shown(d: &BufferedDisplay) -> String {
    String::from_utf8_lossy(&d.get_buffer().read().unwrap()).into_owned()
}

fn main() {
    let mut sim = machine(zeroed(), ".orig x3000\nLEA R0, S\nPUTS\nHALT\nS .fill x4041\n.fill x42\n.fill 0\n.end");
    let (_, d) = io(&mut sim);
    sim.run().unwrap();
    assert_eq!(shown(&d), "AB");
}
