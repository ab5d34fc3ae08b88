//! A second simulated machine with very small AIRs, for properties in which many precompiles are built.
use super::adapter::Snapshot;
use super::air::parse_air;
use powdr_autoprecompiles::adapter::*;
use powdr_autoprecompiles::blocks::{Instruction, PcStep, Program};
use powdr_autoprecompiles::evaluation::AirStats;
use powdr_autoprecompiles::symbolic_machine::SymbolicMachine;
use powdr_autoprecompiles::{DegreeBound, InstructionHandler, VmConfig};
use powdr_number::BabyBearField as F;
use powdr_openvm_bus_interaction_handler::bus_map::{default_openvm_bus_map, OpenVmBusType};
use powdr_openvm_bus_interaction_handler::memory_bus_interaction::OpenVmMemoryBusInteraction;
use powdr_openvm_bus_interaction_handler::OpenVmBusInteractionHandler;
use serde::{Deserialize, Serialize};
use std::sync::{Arc, OnceLock};

pub const KINDS: usize = 4;
/// An instruction no execution satisfies: building a precompile with it fails.
pub const BAD: usize = KINDS;
#[derive(Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Ins {
    pub kind: usize,
    pub arg: u32,
    pub branching: bool,
    pub opaque: bool,
}
impl std::fmt::Display for Ins {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "op{} {}{}{}", self.kind, self.arg, if self.branching { " b" } else { "" }, if self.opaque { " !" } else { "" })
    }
}
impl Ins {
    pub fn air(&self) -> usize {
        self.kind + if self.branching { BAD + 1 } else { 0 }
    }
}
impl PcStep for Ins {
    fn pc_step() -> u32 {
        4
    }
}
impl Instruction<F> for Ins {
    fn pc_lookup_row(&self, pc: u64) -> Vec<F> {
        [pc, self.kind as u64, self.arg as u64, 0, 0, 0, 0, 0, 0].into_iter().map(F::from).collect()
    }
}
#[derive(Clone, Debug)]
pub struct Prog {
    pub base: u64,
    pub ins: Vec<Ins>,
}
impl Program<Ins> for Prog {
    fn base_pc(&self) -> u64 {
        self.base
    }
    fn instructions(&self) -> Box<dyn Iterator<Item = Ins> + '_> {
        Box::new(self.ins.iter().cloned())
    }
    fn length(&self) -> u32 {
        self.ins.len() as u32
    }
}
pub fn airs() -> &'static [(SymbolicMachine<F>, usize)] {
    static A: OnceLock<Vec<(SymbolicMachine<F>, usize)>> = OnceLock::new();
    A.get_or_init(|| {
        (0..2 * (BAD + 1))
            .map(|j| {
                let (k, jump) = (j % (BAD + 1), j > BAD);
                let mut s = String::from("tiny\n  pc\n  ts\n  v\n  arg\n");
                for i in 0..k {
                    s += &format!("  x{i}\n");
                }
                if jump {
                    s += "  to_pc\n";
                }
                let to = if jump { "to_pc" } else { "pc + 4" };
                s += &format!("// Bus 0 (E):\nmult=-v, args=[pc, ts]\nmult=v, args=[{to}, ts + 1]\n// Bus 2 (P):\n");
                s += &format!("mult=v, args=[pc, {k}, arg, 0, 0, 0, 0, 0, 0]\nv * (v - 1) = 0\n");
                if k == BAD {
                    s += "v * (arg - 77) = 0\n";
                }
                if k > 0 {
                    s += "// Bus 3 (R):\n";
                }
                for i in 0..k {
                    s += &format!("mult=v, args=[x{i}, {}]\n", 3 + i);
                }
                let (cols, m) = parse_air(&s);
                (m, cols.len())
            })
            .collect()
    })
}
pub struct Handler;
impl InstructionHandler for Handler {
    type Field = F;
    type Instruction = Ins;
    type AirId = usize;
    fn degree_bound(&self) -> DegreeBound {
        super::adapter::BOUND
    }
    fn get_instruction_air_and_id(&self, i: &Ins) -> (usize, &SymbolicMachine<F>) {
        (i.air(), &airs()[i.air()].0)
    }
    fn get_instruction_air_stats(&self, i: &Ins) -> AirStats {
        let (m, c) = &airs()[i.air()];
        AirStats { main_columns: *c, constraints: m.constraints.len(), bus_interactions: m.bus_interactions.len() }
    }
}
#[derive(Clone, Debug)]
pub struct TinyVm;
impl Adapter for TinyVm {
    type Field = F;
    type PowdrField = F;
    type InstructionHandler = Handler;
    type BusInteractionHandler = OpenVmBusInteractionHandler<F>;
    type Program = Prog;
    type Instruction = Ins;
    type MemoryBusInteraction<V: Ord + Clone + Eq + std::fmt::Display + std::hash::Hash> = OpenVmMemoryBusInteraction<F, V>;
    type CustomBusTypes = OpenVmBusType;
    type ApcStats = usize;
    type AirId = usize;
    type ExecutionState = Snapshot;
    fn into_field(e: F) -> F {
        e
    }
    fn from_field(e: F) -> F {
        e
    }
    fn apc_stats(apc: Arc<AdapterApc<Self>>, _: &Handler) -> usize {
        apc.instructions().count()
    }
    fn is_branching(i: &Ins) -> bool {
        i.branching
    }
    fn is_allowed(i: &Ins) -> bool {
        !i.opaque
    }
}
pub static HANDLER: Handler = Handler;
pub fn vm_config() -> AdapterVmConfig<'static, TinyVm> {
    VmConfig { instruction_handler: &HANDLER, bus_interaction_handler: OpenVmBusInteractionHandler::default(), bus_map: default_openvm_bus_map() }
}
