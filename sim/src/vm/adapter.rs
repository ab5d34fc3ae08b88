//! The simulated zkVM as seen by the precompile builder.
use super::air::airs;
use super::isa::{Ins, State};
use super::mach::Mach;
use powdr_autoprecompiles::adapter::*;
use powdr_autoprecompiles::blocks::{Instruction, PcStep, Program};
use powdr_autoprecompiles::evaluation::AirStats;
use powdr_autoprecompiles::execution::ExecutionState;
use powdr_autoprecompiles::symbolic_machine::SymbolicMachine;
use powdr_autoprecompiles::{Apc, DegreeBound, InstructionHandler, VmConfig};
use powdr_number::BabyBearField as F;
use powdr_openvm_bus_interaction_handler::bus_map::{default_openvm_bus_map, OpenVmBusType};
use powdr_openvm_bus_interaction_handler::memory_bus_interaction::OpenVmMemoryBusInteraction;
use powdr_openvm_bus_interaction_handler::OpenVmBusInteractionHandler;
use std::sync::{Arc, OnceLock};

impl PcStep for Ins {
    fn pc_step() -> u32 {
        4
    }
}
impl Instruction<F> for Ins {
    fn pc_lookup_row(&self, pc: u64) -> Vec<F> {
        self.lookup_row(pc).into_iter().map(F::from).collect()
    }
}
#[derive(Clone, Debug)]
pub struct Prog {
    pub base: u64,
    pub ins: Vec<Ins>,
}
impl Program<Ins> for Prog {
    fn base_pc(&self) -> u64 {
        self.base
    }
    fn instructions(&self) -> Box<dyn Iterator<Item = Ins> + '_> {
        Box::new(self.ins.iter().cloned())
    }
    fn length(&self) -> u32 {
        self.ins.len() as u32
    }
}
pub const BOUND: DegreeBound = DegreeBound { identities: 3, bus_interactions: 2 };
pub struct Handler;
impl InstructionHandler for Handler {
    type Field = F;
    type Instruction = Ins;
    type AirId = usize;
    fn degree_bound(&self) -> DegreeBound {
        BOUND
    }
    fn get_instruction_air_and_id(&self, i: &Ins) -> (usize, &SymbolicMachine<F>) {
        (i.air(), &airs()[i.air()].machine)
    }
    fn get_instruction_air_stats(&self, i: &Ins) -> AirStats {
        let m = &airs()[i.air()];
        AirStats { main_columns: m.cols.len(), constraints: m.machine.constraints.len(), bus_interactions: m.machine.bus_interactions.len() }
    }
}
#[derive(Clone)]
pub struct Snapshot(pub State);
impl ExecutionState for Snapshot {
    type RegisterAddress = u32;
    type Value = u32;
    fn pc(&self) -> u32 {
        self.0.pc
    }
    fn value_limb(v: u32, i: usize) -> u32 {
        (v >> (8 * i)) & 0xff
    }
    fn reg(&self, a: &u32) -> u32 {
        self.0.get((1, *a))
    }
    fn global_clk(&self) -> usize {
        self.0.ts as usize
    }
}
#[derive(Clone, Debug)]
pub struct SimVm;
impl Adapter for SimVm {
    type Field = F;
    type PowdrField = F;
    type InstructionHandler = Handler;
    type BusInteractionHandler = OpenVmBusInteractionHandler<F>;
    type Program = Prog;
    type Instruction = Ins;
    type MemoryBusInteraction<V: Ord + Clone + Eq + std::fmt::Display + std::hash::Hash> = OpenVmMemoryBusInteraction<F, V>;
    type CustomBusTypes = OpenVmBusType;
    type ApcStats = (usize, usize);
    type AirId = usize;
    type ExecutionState = Snapshot;
    fn into_field(e: F) -> F {
        e
    }
    fn from_field(e: F) -> F {
        e
    }
    fn apc_stats(apc: Arc<AdapterApc<Self>>, h: &Handler) -> (usize, usize) {
        let before = apc.instructions().map(|i| h.get_instruction_air_stats(i).main_columns).sum();
        (before, apc.machine().main_columns().count())
    }
    fn is_branching(i: &Ins) -> bool {
        i.branching()
    }
    fn is_allowed(i: &Ins) -> bool {
        !i.opaque()
    }
}
pub type SimApc = Apc<F, Ins, u32, u32>;
pub static HANDLER: Handler = Handler;
pub fn vm_config() -> AdapterVmConfig<'static, SimVm> {
    VmConfig { instruction_handler: &HANDLER, bus_interaction_handler: OpenVmBusInteractionHandler::default(), bus_map: default_openvm_bus_map() }
}
/// The verifiers of the instruction AIRs.
pub fn air_machs() -> &'static [Mach] {
    static A: OnceLock<Vec<Mach>> = OnceLock::new();
    A.get_or_init(|| airs().iter().map(|a| Mach::new(&a.machine).unwrap()).collect())
}
