//! Generators of instructions, blocks and initial states.
use super::isa::*;
use super::P;
use crate::gen::*;
use rayon_core::sim;

/// Few registers so that values flow through the block.
pub fn regs() -> Vec<u32> {
    let n = range(2, 6);
    (0..n).map(|i| [5u32, 6, 7, 10, 11, 28, 2, 1][(i + below(2)) % 8]).collect()
}
pub fn imm12() -> i32 {
    match below(6) {
        0 => 0,
        1 => below(16) as i32,
        2 => pick(&[1, -1, 255, 256, 2047, -2048, 31, 8, 16, -256, 128, 127]),
        3 => below(256) as i32,
        _ => below(4096) as i32 - 2048,
    }
}
pub struct Mix {
    /// Weights of instruction families: alu, shift, lt, mem, mul, mulh, div, upper
    pub w: [usize; 8],
    pub regs: Vec<u32>,
    pub x0: u64,
}
pub fn mix() -> Mix {
    let regs = regs();
    let w = match below(6) {
        0 => [4, 2, 2, 4, 1, 1, 1, 1],
        1 => [4, 0, 0, 0, 0, 0, 0, 1],
        2 => [2, 0, 0, 6, 0, 0, 0, 1],
        3 => [1, 2, 2, 1, 0, 0, 0, 1],
        4 => [1, 1, 1, 1, 2, 2, 2, 1],
        _ => [3, 1, 1, 3, 0, 0, 0, 1],
    };
    Mix { w, regs, x0: pick(&[8u64, 3, 0]) }
}
impl Mix {
    fn src(&self) -> u32 {
        if self.x0 > 0 && chance(1, self.x0) {
            0
        } else {
            pick(&self.regs)
        }
    }
    fn dst(&self) -> u32 {
        pick(&self.regs)
    }
    pub fn straight(&self) -> Ins {
        let tot: usize = self.w.iter().sum();
        let mut k = below(tot);
        let mut fam = 0;
        while k >= self.w[fam] {
            k -= self.w[fam];
            fam += 1;
        }
        match fam {
            0 => {
                let op = 512 + below(5) as u32;
                if op != 513 && chance(1, 2) {
                    alu_i(op, self.dst(), self.src(), imm12())
                } else {
                    alu_r(op, self.dst(), self.src(), self.src())
                }
            }
            1 => {
                let op = 517 + below(3) as u32;
                if chance(2, 3) {
                    alu_i(op, self.dst(), self.src(), below(32) as i32)
                } else {
                    alu_r(op, self.dst(), self.src(), self.src())
                }
            }
            2 => {
                let op = 520 + below(2) as u32;
                if chance(1, 2) {
                    alu_i(op, self.dst(), self.src(), imm12())
                } else {
                    alu_r(op, self.dst(), self.src(), self.src())
                }
            }
            3 => {
                let op = pick(&[528u32, 531, 528, 531, 529, 530, 532, 533, 534, 535]);
                let load = !matches!(op, 531..=533);
                let r = if load {
                    if chance(1, 12) {
                        0
                    } else {
                        self.dst()
                    }
                } else {
                    self.src()
                };
                let width = match op {
                    528 | 531 => 4,
                    530 | 532 | 535 => 2,
                    _ => 1,
                };
                let off = match below(3) {
                    0 => width * below(8) as i32,
                    1 => 4 * below(4) as i32,
                    _ => width * (below(16) as i32 - 8),
                };
                mem(op, r, pick(&self.regs), off)
            }
            4 => mul_r(592, self.dst(), self.src(), self.src()),
            5 => mul_r(593 + below(3) as u32, self.dst(), self.src(), self.src()),
            6 => mul_r(596 + below(4) as u32, self.dst(), self.src(), self.src()),
            _ => {
                let i = match below(3) {
                    0 => below(16) as u32,
                    1 => pick(&[0xfffffu32, 0x80000, 0x7ffff, 0x10, 0xff]),
                    _ => sim::choose(1 << 20) as u32,
                };
                if chance(1, 2) {
                    lui(self.dst(), i)
                } else {
                    auipc(self.dst(), i)
                }
            }
        }
    }
    /// A block-ending instruction with a relative target.
    pub fn ending(&self, imm: i64) -> Ins {
        match below(8) {
            0..=5 => branch(pick(&[544u32, 545, 549, 550, 551, 552]), self.src(), self.src(), imm),
            6 => jal(if chance(1, 2) { 0 } else { self.dst() }, imm),
            _ => jalr(if chance(1, 2) { 0 } else { self.dst() }, pick(&self.regs), imm12()),
        }
    }
}
pub fn word() -> u32 {
    match below(7) {
        0 => 0,
        1 => below(300) as u32,
        2 => pick(&[u32::MAX, 0x8000_0000, 0x7fff_ffff, 1, 0xff, 0x100, 0xffff_ff00, 0x80, 0x8000, 0xffff_ff80]),
        3 => 0x1000 + 4 * below(64) as u32,
        4 => pick(&[0x00ff_00ffu32, 0xff00_ff00, 0x0101_0101, 0x8080_8080]),
        _ => sim::choose(1 << 32) as u32,
    }
}
/// A state in which the registers of `m` hold values; some of them usable addresses.
pub fn state(m: &Mix, pc: u32) -> State {
    let ts = match below(4) {
        0 => 100 + below(100) as u32,
        1 => (1 << 17) + below(3000) as u32,
        2 => (1 << 28) + below(3000) as u32,
        _ => 5000,
    };
    let mut s = State { pc, ts, ..Default::default() };
    let prev = || match below(4) {
        0 => 0u32,
        1 => ts - 1,
        2 => ts - 1 - below(50) as u32,
        _ => sim::choose(ts as u64) as u32,
    };
    let addressy = below(3);
    for r in 1..32u32 {
        if m.regs.contains(&r) {
            let v = if addressy > 0 && chance(addressy as u64, 3) { 0x1000 + 4 * below(16) as u32 } else { word() };
            s.cells.insert((1, 4 * r), (v, prev()));
        }
    }
    s.cells.insert((1, 0), (0, prev()));
    for i in 0..24u32 {
        if chance(1, 2) {
            s.cells.insert((2, 0x1000 - 32 + 4 * i), (word(), prev()));
        }
    }
    let _ = P;
    s
}
/// Straight-line instructions with an optional block-ending one.
pub fn block(m: &Mix, len: usize) -> Vec<Ins> {
    let mut v: Vec<Ins> = (0..len).map(|_| m.straight()).collect();
    if chance(1, 2) {
        let imm = 4 * (below(64) as i64 - 32);
        v.push(m.ending(if imm == 0 { 8 } else { imm }));
    }
    v
}
/// Executes the instructions in order from `s` (ignoring where control goes);
/// registers used as addresses are repaired first where that makes the access legal.
/// Returns the rows, or None if an access is not legal.
pub fn run_block(s: &mut State, ins: &[Ins]) -> Option<Vec<Vec<u64>>> {
    let mut rows = vec![];
    for i in ins {
        rows.push(step(s, i, true).ok()?);
    }
    Some(rows)
}
