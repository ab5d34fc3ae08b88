//! A zkVM whose instructions are drawn at random: each has an AIR grown from gadgets.
use super::adapter::{Snapshot, BOUND};
use super::synth::*;
use powdr_autoprecompiles::adapter::*;
use powdr_autoprecompiles::blocks::{Instruction, PcStep, Program};
use powdr_autoprecompiles::evaluation::AirStats;
use powdr_autoprecompiles::symbolic_machine::SymbolicMachine;
use powdr_autoprecompiles::{DegreeBound, InstructionHandler, VmConfig};
use powdr_number::BabyBearField as F;
use powdr_openvm_bus_interaction_handler::bus_map::{default_openvm_bus_map, OpenVmBusType};
use powdr_openvm_bus_interaction_handler::memory_bus_interaction::OpenVmMemoryBusInteraction;
use powdr_openvm_bus_interaction_handler::OpenVmBusInteractionHandler;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

#[derive(Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Ins {
    pub kind: usize,
    pub args: Vec<u64>,
}
impl std::fmt::Display for Ins {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "syn{} {:?}", self.kind, self.args)
    }
}
impl PcStep for Ins {
    fn pc_step() -> u32 {
        4
    }
}
impl Instruction<F> for Ins {
    fn pc_lookup_row(&self, pc: u64) -> Vec<F> {
        self.lookup_row(pc).into_iter().map(F::from).collect()
    }
}
impl Ins {
    pub fn lookup_row(&self, pc: u64) -> Vec<u64> {
        let mut v = vec![pc, self.kind as u64];
        v.extend(&self.args);
        v.resize(9, 0);
        v
    }
}
#[derive(Clone, Debug)]
pub struct Prog(pub Vec<Ins>);
impl Program<Ins> for Prog {
    fn base_pc(&self) -> u64 {
        0
    }
    fn instructions(&self) -> Box<dyn Iterator<Item = Ins> + '_> {
        Box::new(self.0.iter().cloned())
    }
    fn length(&self) -> u32 {
        self.0.len() as u32
    }
}
/// The instruction set of one run.
pub struct Handler {
    pub airs: Vec<SymbolicMachine<F>>,
    /// columns of the drawn system each AIR has
    pub cols: Vec<Vec<usize>>,
}
impl Handler {
    pub fn new(s: &Sys) -> Self {
        let (airs, cols) = (0..s.cuts.len()).map(|k| s.air(k)).unzip();
        Handler { airs, cols }
    }
}
impl InstructionHandler for Handler {
    type Field = F;
    type Instruction = Ins;
    type AirId = usize;
    fn degree_bound(&self) -> DegreeBound {
        BOUND
    }
    fn get_instruction_air_and_id(&self, i: &Ins) -> (usize, &SymbolicMachine<F>) {
        (i.kind, &self.airs[i.kind])
    }
    fn get_instruction_air_stats(&self, i: &Ins) -> AirStats {
        let m = &self.airs[i.kind];
        AirStats { main_columns: self.cols[i.kind].len(), constraints: m.constraints.len(), bus_interactions: m.bus_interactions.len() }
    }
}
#[derive(Clone, Debug)]
pub struct SynVm;
impl Adapter for SynVm {
    type Field = F;
    type PowdrField = F;
    type InstructionHandler = Handler;
    type BusInteractionHandler = OpenVmBusInteractionHandler<F>;
    type Program = Prog;
    type Instruction = Ins;
    type MemoryBusInteraction<V: Ord + Clone + Eq + std::fmt::Display + std::hash::Hash> = OpenVmMemoryBusInteraction<F, V>;
    type CustomBusTypes = OpenVmBusType;
    type ApcStats = usize;
    type AirId = usize;
    type ExecutionState = Snapshot;
    fn into_field(e: F) -> F {
        e
    }
    fn from_field(e: F) -> F {
        e
    }
    fn apc_stats(apc: Arc<AdapterApc<Self>>, _: &Handler) -> usize {
        apc.instructions().count()
    }
    fn is_branching(_: &Ins) -> bool {
        false
    }
    fn is_allowed(_: &Ins) -> bool {
        true
    }
}
pub fn vm_config(h: &Handler) -> AdapterVmConfig<'_, SynVm> {
    VmConfig { instruction_handler: h, bus_interaction_handler: OpenVmBusInteractionHandler::default(), bus_map: default_openvm_bus_map() }
}
