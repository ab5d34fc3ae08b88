//! A small simulated machine whose execution history drives the run-time parts
//! (optimistic constraints, candidate tracking).
use crate::gen::*;
use powdr_autoprecompiles::execution::*;
use rayon_core::sim;

pub const REGS: usize = 12;
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct St {
    pub pc: u32,
    pub regs: [u32; REGS],
    pub clk: usize,
}
impl ExecutionState for St {
    type RegisterAddress = u8;
    type Value = u32;
    fn pc(&self) -> u32 {
        self.pc
    }
    fn value_limb(v: u32, i: usize) -> u32 {
        (v >> (8 * i)) & 0xff
    }
    fn reg(&self, a: &u8) -> u32 {
        self.regs[*a as usize]
    }
    fn global_clk(&self) -> usize {
        self.clk
    }
}
impl St {
    pub fn new() -> St {
        let clk = pick(&[0usize, 0, 0, 1, 1 << 16, (1 << 32) - 20, 1 << 40]);
        St { clk, ..St::zero() }
    }
    pub fn zero() -> St {
        St { pc: 0, regs: [0; REGS], clk: 0 }
    }
    /// One instruction of the simulated machine: small value domains so that
    /// constraints both hold and fail often.
    pub fn step(&mut self) {
        match below(6) {
            0..=3 => self.pc += 4,
            4 => self.pc = 4 * tail(0, 5, 1 << 29) as u32,
            _ => {}
        }
        if chance(1, 2) {
            let r = draw_reg();
            self.regs[r] = draw_val();
        }
        self.clk += match below(8) {
            7 => 1 + below(1000),
            k => 1 + k / 4,
        };
    }
}
fn draw_reg() -> usize {
    if chance(1, 12) {
        below(REGS)
    } else {
        below(4)
    }
}
pub fn draw_val() -> u32 {
    if chance(1, 24) {
        return sim::choose(1 << 32) as u32;
    }
    pick(&[0u32, 1, 0x100, 0x101, 0x0202_0100, 0xffff_ff00])
}

pub type C = OptimisticConstraint<u8, u32>;
pub fn draw_literal(max_idx: usize) -> OptimisticLiteral<u8> {
    OptimisticLiteral {
        instr_idx: below(max_idx + 1),
        val: match below(3) {
            0 => LocalOptimisticLiteral::Pc,
            _ => LocalOptimisticLiteral::RegisterLimb(draw_reg() as u8, below(4)),
        },
    }
}
fn model_literal(hist: &[St], l: &OptimisticLiteral<u8>) -> u32 {
    let s = &hist[l.instr_idx];
    match l.val {
        LocalOptimisticLiteral::Pc => s.pc,
        LocalOptimisticLiteral::RegisterLimb(r, i) => (s.regs[r as usize] >> (8 * i)) & 0xff,
    }
}
fn model_expr(hist: &[St], e: &OptimisticExpression<u8, u32>) -> u32 {
    match e {
        OptimisticExpression::Number(n) => *n,
        OptimisticExpression::Literal(l) => model_literal(hist, l),
    }
}
fn idx(e: &OptimisticExpression<u8, u32>) -> usize {
    match e {
        OptimisticExpression::Number(_) => 0,
        OptimisticExpression::Literal(l) => l.instr_idx,
    }
}
pub fn evaluable_at(c: &C) -> usize {
    idx(&c.left).max(idx(&c.right))
}
/// Does `c` hold over the history of the candidate (hist[0] = state at insertion)?
pub fn holds(hist: &[St], c: &C) -> bool {
    model_expr(hist, &c.left) == model_expr(hist, &c.right)
}
/// A constraint; when `hist` (a foreseen future) is given it is mostly built to hold on it.
pub fn draw_constraint(max_idx: usize, hist: Option<&[St]>) -> C {
    let l = draw_literal(max_idx);
    let left = OptimisticExpression::Literal(l);
    let mut right = match below(4) {
        0 => OptimisticExpression::Number(draw_val() & 0xff),
        1 => OptimisticExpression::Number(4 * below(8) as u32),
        _ => OptimisticExpression::Literal(draw_literal(max_idx)),
    };
    if let (Some(h), false) = (hist, chance(1, 8)) {
        if l.instr_idx < h.len() {
            let v = model_literal(h, &l);
            // look for a literal elsewhere in the history with the same value
            let mut found = None;
            for _ in 0..4 {
                let k = draw_literal(max_idx);
                if k.instr_idx < h.len() && model_literal(h, &k) == v {
                    found = Some(k);
                    break;
                }
            }
            right = match found {
                Some(k) => OptimisticExpression::Literal(k),
                None => OptimisticExpression::Number(v),
            };
        }
    }
    if chance(1, 3) {
        OptimisticConstraint { left: right, right: left }
    } else {
        OptimisticConstraint { left, right }
    }
}
