#![allow(dead_code)]
// A very small machine to build precompiles for.
use powdr_autoprecompiles::adapter::*;
use powdr_autoprecompiles::blocks::{Instruction, PcStep, Program};
use powdr_autoprecompiles::evaluation::AirStats;
use powdr_autoprecompiles::execution::ExecutionState;
use powdr_autoprecompiles::expression::{AlgebraicExpression, AlgebraicReference};
use powdr_autoprecompiles::symbolic_machine::{SymbolicBusInteraction, SymbolicMachine};
use powdr_autoprecompiles::{DegreeBound, InstructionHandler, VmConfig};
use powdr_number::BabyBearField as F;
use powdr_openvm_bus_interaction_handler::bus_map::{default_openvm_bus_map, OpenVmBusType};
use powdr_openvm_bus_interaction_handler::memory_bus_interaction::OpenVmMemoryBusInteraction;
use powdr_openvm_bus_interaction_handler::OpenVmBusInteractionHandler;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, Default)]
pub struct Snapshot {
    pub pc: u32,
    pub clk: usize,
    pub regs: BTreeMap<u32, u32>,
}
impl ExecutionState for Snapshot {
    type RegisterAddress = u32;
    type Value = u32;
    fn pc(&self) -> u32 {
        self.pc
    }
    fn value_limb(v: u32, i: usize) -> u32 {
        (v >> (8 * i)) & 0xff
    }
    fn reg(&self, a: &u32) -> u32 {
        self.regs.get(a).copied().unwrap_or(0)
    }
    fn global_clk(&self) -> usize {
        self.clk
    }
}

type E = AlgebraicExpression<F>;
struct Ps<'a> {
    t: Vec<&'a str>,
    i: usize,
    ix: &'a BTreeMap<String, usize>,
}
fn tokens(s: &str) -> Vec<&str> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i] as char;
        if c.is_whitespace() {
            i += 1;
        } else if c.is_alphanumeric() || c == '_' {
            let st = i;
            while i < b.len() && ((b[i] as char).is_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            v.push(&s[st..i]);
        } else {
            v.push(&s[i..i + 1]);
            i += 1;
        }
    }
    v
}
impl Ps<'_> {
    fn peek(&self) -> &str {
        self.t.get(self.i).copied().unwrap_or("")
    }
    fn expr(&mut self) -> E {
        let mut l = self.term();
        loop {
            match self.peek() {
                "+" => {
                    self.i += 1;
                    l = l + self.term();
                }
                "-" => {
                    self.i += 1;
                    l = l - self.term();
                }
                _ => return l,
            }
        }
    }
    fn term(&mut self) -> E {
        let mut l = self.atom();
        while self.peek() == "*" {
            self.i += 1;
            l = l * self.atom();
        }
        l
    }
    fn atom(&mut self) -> E {
        let t = self.t[self.i].to_string();
        self.i += 1;
        match t.as_str() {
            "(" => {
                let e = self.expr();
                assert_eq!(self.peek(), ")");
                self.i += 1;
                e
            }
            "-" => -self.atom(),
            t if t.as_bytes()[0].is_ascii_digit() => E::Number(F::from(t.parse::<u64>().unwrap())),
            t => {
                let id = *self.ix.get(t).unwrap_or_else(|| panic!("column {t}"));
                E::Reference(AlgebraicReference { name: Arc::new(t.to_string()), id: id as u64 })
            }
        }
    }
}
fn parse(s: &str, ix: &BTreeMap<String, usize>) -> E {
    let mut p = Ps { t: tokens(s), i: 0, ix };
    let e = p.expr();
    assert_eq!(p.i, p.t.len(), "{s}");
    e
}
/// Splits at top-level commas.
fn split(s: &str) -> Vec<&str> {
    let mut v = vec![];
    let (mut d, mut st) = (0, 0);
    for (i, c) in s.char_indices() {
        match c {
            '(' => d += 1,
            ')' => d -= 1,
            ',' if d == 0 => {
                v.push(&s[st..i]);
                st = i + 1;
            }
            _ => {}
        }
    }
    v.push(&s[st..]);
    v
}

/// Parses one AIR: a title line, columns, bus interactions and constraints.
pub fn parse_air(part: &str) -> (Vec<String>, SymbolicMachine<F>) {
    let mut cols: Vec<String> = vec![];
    let mut ix = BTreeMap::new();
    let (mut bi, mut cs) = (vec![], vec![]);
    let mut bus = 0u64;
    for l in part.lines().skip(1) {
        if let Some(c) = l.strip_prefix("  ") {
            ix.insert(c.to_string(), cols.len());
            cols.push(c.to_string());
        } else if let Some(r) = l.strip_prefix("// Bus ") {
            bus = r.split(' ').next().unwrap().parse().unwrap();
        } else if let Some(r) = l.strip_prefix("mult=") {
            let (m, a) = r.split_once(", args=[").unwrap();
            let a = a.strip_suffix(']').unwrap();
            bi.push(SymbolicBusInteraction { id: bus, mult: parse(m, &ix), args: split(a).into_iter().map(|e| parse(e, &ix)).collect() });
        } else if let Some(e) = l.strip_suffix(" = 0") {
            cs.push(parse(e, &ix).into());
        }
    }
    (cols, SymbolicMachine { constraints: cs, bus_interactions: bi, derived_columns: vec![] })
}

pub const KINDS: usize = 4;
/// An instruction no execution satisfies: building a precompile with it fails.
pub const BAD: usize = KINDS;
#[derive(Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Ins {
    pub kind: usize,
    pub arg: u32,
    pub branching: bool,
    pub opaque: bool,
}
impl std::fmt::Display for Ins {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "op{} {}{}{}", self.kind, self.arg, if self.branching { " b" } else { "" }, if self.opaque { " !" } else { "" })
    }
}
impl Ins {
    pub fn air(&self) -> usize {
        self.kind + if self.branching { BAD + 1 } else { 0 }
    }
}
impl PcStep for Ins {
    fn pc_step() -> u32 {
        4
    }
}
impl Instruction<F> for Ins {
    fn pc_lookup_row(&self, pc: u64) -> Vec<F> {
        [pc, self.kind as u64, self.arg as u64, 0, 0, 0, 0, 0, 0].into_iter().map(F::from).collect()
    }
}
#[derive(Clone, Debug)]
pub struct Prog {
    pub base: u64,
    pub ins: Vec<Ins>,
}
impl Program<Ins> for Prog {
    fn base_pc(&self) -> u64 {
        self.base
    }
    fn instructions(&self) -> Box<dyn Iterator<Item = Ins> + '_> {
        Box::new(self.ins.iter().cloned())
    }
    fn length(&self) -> u32 {
        self.ins.len() as u32
    }
}
/// Listings of the instructions' AIRs; a demonstration may install others before it starts.
pub static TEXTS: OnceLock<Vec<String>> = OnceLock::new();
fn tiny_texts() -> Vec<String> {
    (0..2 * (BAD + 1))
        .map(|j| {
            let (k, jump) = (j % (BAD + 1), j > BAD);
            let mut s = String::from("tiny\n  pc\n  ts\n  v\n  arg\n");
            for i in 0..k {
                s += &format!("  x{i}\n");
            }
            if jump {
                s += "  to_pc\n";
            }
            let to = if jump { "to_pc" } else { "pc + 4" };
            s += &format!("// Bus 0 (E):\nmult=-v, args=[pc, ts]\nmult=v, args=[{to}, ts + 1]\n// Bus 2 (P):\n");
            s += &format!("mult=v, args=[pc, {k}, arg, 0, 0, 0, 0, 0, 0]\nv * (v - 1) = 0\n");
            if k == BAD {
                s += "v * (arg - 77) = 0\n";
            }
            if k > 0 {
                s += "// Bus 3 (R):\n";
            }
            for i in 0..k {
                s += &format!("mult=v, args=[x{i}, {}]\n", 3 + i);
            }
            s
        })
        .collect()
}
pub fn airs() -> &'static [(SymbolicMachine<F>, usize)] {
    static A: OnceLock<Vec<(SymbolicMachine<F>, usize)>> = OnceLock::new();
    A.get_or_init(|| {
        TEXTS
            .get_or_init(tiny_texts)
            .iter()
            .map(|s| {
                let (cols, m) = parse_air(s);
                (m, cols.len())
            })
            .collect()
    })
}
pub struct Handler;
impl InstructionHandler for Handler {
    type Field = F;
    type Instruction = Ins;
    type AirId = usize;
    fn degree_bound(&self) -> DegreeBound {
        DegreeBound { identities: 3, bus_interactions: 2 }
    }
    fn get_instruction_air_and_id(&self, i: &Ins) -> (usize, &SymbolicMachine<F>) {
        (i.air(), &airs()[i.air()].0)
    }
    fn get_instruction_air_stats(&self, i: &Ins) -> AirStats {
        let (m, c) = &airs()[i.air()];
        AirStats { main_columns: *c, constraints: m.constraints.len(), bus_interactions: m.bus_interactions.len() }
    }
}
#[derive(Clone, Debug)]
pub struct TinyVm;
impl Adapter for TinyVm {
    type Field = F;
    type PowdrField = F;
    type InstructionHandler = Handler;
    type BusInteractionHandler = OpenVmBusInteractionHandler<F>;
    type Program = Prog;
    type Instruction = Ins;
    type MemoryBusInteraction<V: Ord + Clone + Eq + std::fmt::Display + std::hash::Hash> = OpenVmMemoryBusInteraction<F, V>;
    type CustomBusTypes = OpenVmBusType;
    type ApcStats = usize;
    type AirId = usize;
    type ExecutionState = Snapshot;
    fn into_field(e: F) -> F {
        e
    }
    fn from_field(e: F) -> F {
        e
    }
    fn apc_stats(apc: Arc<AdapterApc<Self>>, _: &Handler) -> usize {
        apc.instructions().count()
    }
    fn is_branching(i: &Ins) -> bool {
        i.branching
    }
    fn is_allowed(i: &Ins) -> bool {
        !i.opaque
    }
}
pub static HANDLER: Handler = Handler;
pub fn vm_config() -> AdapterVmConfig<'static, TinyVm> {
    VmConfig { instruction_handler: &HANDLER, bus_interaction_handler: OpenVmBusInteractionHandler::default(), bus_map: default_openvm_bus_map() }
}
