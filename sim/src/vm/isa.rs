//! Instructions, the reference interpreter, and the honest rows of the instruction AIRs.
use super::air::{self, airs};
use super::{add, inv, mul, neg, sub, P};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Ins {
    pub op: u32,
    /// Field-encoded operands a..g.
    pub a: [u32; 7],
}
const M: [(u32, &str); 37] = [
    (512, "add"), (513, "sub"), (514, "xor"), (515, "or"), (516, "and"), (517, "sll"), (518, "srl"), (519, "sra"), (520, "slt"), (521, "sltu"),
    (528, "lw"), (529, "lbu"), (530, "lhu"), (531, "sw"), (532, "sh"), (533, "sb"), (534, "lb"), (535, "lh"),
    (544, "beq"), (545, "bne"), (549, "blt"), (550, "bltu"), (551, "bge"), (552, "bgeu"), (560, "jal"), (561, "lui"), (565, "jalr"), (576, "auipc"),
    (592, "mul"), (593, "mulh"), (594, "mulhsu"), (595, "mulhu"), (596, "div"), (597, "divu"), (598, "rem"), (599, "remu"), (1, "ecall"),
];
impl std::fmt::Display for Ins {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let n = M.iter().find(|(o, _)| *o == self.op).map(|m| m.1).unwrap_or("?");
        write!(f, "{n}")?;
        for x in self.a {
            if x as u64 > P / 2 {
                write!(f, " -{}", P - x as u64)?;
            } else {
                write!(f, " {x}")?;
            }
        }
        Ok(())
    }
}
impl Ins {
    pub fn air(&self) -> usize {
        match self.op {
            512..=516 => air::ALU,
            517..=519 => air::SHIFT,
            520 | 521 => air::LT,
            528..=533 => air::LS,
            534 | 535 => air::LSX,
            544 | 545 => air::BEQ,
            549..=552 => air::BLT,
            560 | 561 => air::JALLUI,
            565 => air::JALR,
            576 => air::AUIPC,
            592 => air::MUL,
            593..=595 => air::MULH,
            596..=599 => air::DIVREM,
            _ => panic!("no AIR for {self}"),
        }
    }
    pub fn branching(&self) -> bool {
        matches!(self.op, 544 | 545 | 549..=552 | 560 | 565)
    }
    /// Instructions the precompile builder may not touch.
    pub fn opaque(&self) -> bool {
        self.op == 1
    }
    pub fn lookup_row(&self, pc: u64) -> Vec<u64> {
        let mut v = vec![pc, self.op as u64];
        v.extend(self.a.iter().map(|x| *x as u64));
        v
    }
}
fn fe(i: i64) -> u32 {
    if i < 0 {
        (P as i64 + i) as u32
    } else {
        i as u32
    }
}
// assembler
pub fn alu_r(op: u32, rd: u32, rs1: u32, rs2: u32) -> Ins {
    Ins { op, a: [4 * rd, 4 * rs1, 4 * rs2, 1, 1, 0, 0] }
}
pub fn alu_i(op: u32, rd: u32, rs1: u32, imm: i32) -> Ins {
    Ins { op, a: [4 * rd, 4 * rs1, (imm as u32) & 0xff_ffff, 1, 0, 0, 0] }
}
pub fn mul_r(op: u32, rd: u32, rs1: u32, rs2: u32) -> Ins {
    Ins { op, a: [4 * rd, 4 * rs1, 4 * rs2, 1, 0, 0, 0] }
}
pub fn branch(op: u32, rs1: u32, rs2: u32, imm: i64) -> Ins {
    Ins { op, a: [4 * rs1, 4 * rs2, fe(imm), 1, 1, 0, 0] }
}
pub fn jal(rd: u32, imm: i64) -> Ins {
    Ins { op: 560, a: [4 * rd, 0, fe(imm), 1, 0, (rd != 0) as u32, 0] }
}
pub fn lui(rd: u32, imm20: u32) -> Ins {
    Ins { op: 561, a: [4 * rd, 0, imm20, 1, 0, 1, 0] }
}
pub fn auipc(rd: u32, imm20: u32) -> Ins {
    Ins { op: 576, a: [4 * rd, 0, imm20 << 4, 1, 0, 0, 0] }
}
pub fn jalr(rd: u32, rs1: u32, imm: i32) -> Ins {
    Ins { op: 565, a: [4 * rd, 4 * rs1, (imm as u32) & 0xffff, 1, 0, (rd != 0) as u32, (imm < 0) as u32] }
}
pub fn mem(op: u32, r: u32, rs1: u32, imm: i32) -> Ins {
    let w = !(matches!(op, 528..=530 | 534 | 535) && r == 0);
    Ins { op, a: [4 * r, 4 * rs1, (imm as u32) & 0xffff, 1, 2, w as u32, (imm < 0) as u32] }
}
pub fn ecall() -> Ins {
    Ins { op: 1, a: [0; 7] }
}

pub type Addr = (u32, u32);
/// Machine state. Memory cells are words at 4-aligned byte addresses of an address space.
#[derive(Clone, Debug, Default)]
pub struct State {
    pub pc: u32,
    pub ts: u32,
    pub cells: BTreeMap<Addr, (u32, u32)>,
}
impl State {
    pub fn get(&self, a: Addr) -> u32 {
        self.cells.get(&a).map(|c| c.0).unwrap_or(0)
    }
    pub fn reg(&self, r: u32) -> u32 {
        self.get((1, 4 * r))
    }
    /// One bus access at time t: returns (previous value, previous time).
    fn touch(&mut self, a: Addr, t: u32, new: Option<u32>) -> (u32, u32) {
        let c = self.cells.entry(a).or_insert((0, 0));
        let old = *c;
        *c = (new.unwrap_or(old.0), t);
        old
    }
}
#[derive(Debug, Clone, PartialEq)]
pub enum Stop {
    /// The access is outside what the machine supports (misaligned or out of range).
    Trap(&'static str),
}

struct Row {
    air: usize,
    v: Vec<u64>,
}
impl Row {
    fn set(&mut self, n: &str, x: u64) {
        let a = &airs()[self.air];
        let i = *a.ix.get(n).unwrap_or_else(|| panic!("{}: no column {n}", a.name));
        self.v[i] = x % P;
    }
    fn limbs(&mut self, n: &str, x: u32) {
        for (i, b) in x.to_le_bytes().iter().enumerate() {
            self.set(&format!("{n}__{i}"), *b as u64);
        }
    }
    fn aux(&mut self, prefix: &str, ts: u32, prev: u32) {
        assert!(prev < ts, "time of an access must grow");
        let d = (ts - prev - 1) as u64;
        self.set(&format!("{prefix}__prev_timestamp"), prev as u64);
        self.set(&format!("{prefix}__timestamp_lt_aux__lower_decomp__0"), d & 0x1ffff);
        self.set(&format!("{prefix}__timestamp_lt_aux__lower_decomp__1"), d >> 17);
    }
}

/// Pure semantics of the register-to-register operations.
pub fn alu(op: u32, b: u32, c: u32) -> u32 {
    let (sb, sc) = (b as i32, c as i32);
    match op {
        512 => b.wrapping_add(c),
        513 => b.wrapping_sub(c),
        514 => b ^ c,
        515 => b | c,
        516 => b & c,
        517 => b << (c & 31),
        518 => b >> (c & 31),
        519 => (sb >> (c & 31)) as u32,
        520 => (sb < sc) as u32,
        521 => (b < c) as u32,
        592 => b.wrapping_mul(c),
        593 => ((sb as i64 * sc as i64) >> 32) as u32,
        594 => ((sb as i64 * c as i64) >> 32) as u32,
        595 => ((b as u64 * c as u64) >> 32) as u32,
        596 => {
            if c == 0 {
                u32::MAX
            } else {
                sb.wrapping_div(sc) as u32
            }
        }
        597 => b.checked_div(c).unwrap_or(u32::MAX),
        598 => {
            if c == 0 {
                b
            } else {
                sb.wrapping_rem(sc) as u32
            }
        }
        599 => {
            if c == 0 {
                b
            } else {
                b % c
            }
        }
        _ => unreachable!(),
    }
}
pub fn taken(op: u32, a: u32, b: u32) -> bool {
    match op {
        544 => a == b,
        545 => a != b,
        549 => (a as i32) < (b as i32),
        550 => a < b,
        551 => (a as i32) >= (b as i32),
        552 => a >= b,
        _ => unreachable!(),
    }
}
/// Most significant differing limb: (marker index, |difference|).
fn lt_cols(r: &mut Row, b: u32, c: u32, signed: bool, less: bool, names: (&str, &str)) {
    let (bb, cb) = (b.to_le_bytes(), c.to_le_bytes());
    let f = |x: u8| if signed && x >= 128 { sub(x as u64, 256) } else { x as u64 };
    r.set(names.0, f(bb[3]));
    r.set(names.1, f(cb[3]));
    if let Some(i) = (0..4).rev().find(|i| bb[*i] != cb[*i]) {
        r.set(&format!("diff_marker__{i}"), 1);
        let (x, y) = if i == 3 { (f(bb[3]), f(cb[3])) } else { (bb[i] as u64, cb[i] as u64) };
        r.set("diff_val", if less { sub(y, x) } else { sub(x, y) });
    }
}

/// Executes one instruction. `rows`: also produce the row of its AIR.
pub fn step(s: &mut State, ins: &Ins, rows: bool) -> Result<Vec<u64>, Stop> {
    if ins.opaque() {
        s.pc = s.pc.wrapping_add(4);
        s.ts += 1;
        return Ok(vec![]);
    }
    let air = ins.air();
    let mut r = Row { air, v: vec![0; airs()[air].cols.len()] };
    let [a0, a1, a2, _, a4, a5, a6] = ins.a;
    let ts = s.ts;
    let pc = s.pc as u64;
    let lb = |x: u32, i: usize| x.to_le_bytes()[i] as u64;
    macro_rules! set { ($n:expr, $v:expr) => { if rows { r.set($n, $v as u64) } }; }
    macro_rules! limbs { ($n:expr, $v:expr) => { if rows { r.limbs($n, $v) } }; }
    macro_rules! aux { ($n:expr, $t:expr, $p:expr) => { if rows { r.aux($n, $t, $p) } }; }
    if air != air::JALLUI {
        set!("from_state__pc", pc);
        set!("from_state__timestamp", ts);
    }
    let mut next_pc = (pc + 4) % P;
    let dts;
    match air {
        air::ALU | air::LT | air::SHIFT | air::MUL | air::MULH | air::DIVREM => {
            let imm_form = matches!(air, air::ALU | air::LT | air::SHIFT) && a4 == 0;
            let (b, pb) = s.touch((1, a1), ts, None);
            set!("rd_ptr", a0);
            set!("rs1_ptr", a1);
            aux!("reads_aux__0__base", ts, pb);
            let c = if imm_form {
                a2 | if a2 & 0x80_0000 != 0 { 0xff00_0000 } else { 0 }
            } else {
                let (c, pc_) = s.touch((1, a2), ts + 1, None);
                aux!("reads_aux__1__base", ts + 1, pc_);
                c
            };
            let a = alu(ins.op, b, c);
            let (old, pa) = s.touch((1, a0), ts + 2, Some(a));
            dts = 3;
            if rows {
                aux!("writes_aux__base", ts + 2, pa);
                limbs!("writes_aux__prev_data", old);
                limbs!("b", b);
                limbs!("c", c);
                if matches!(air, air::ALU | air::LT | air::SHIFT) {
                    set!("rs2", a2);
                    set!("rs2_as", a4);
                } else {
                    set!("rs2_ptr", a2);
                }
                match air {
                    air::ALU => {
                        limbs!("a", a);
                        set!(["opcode_add_flag", "opcode_sub_flag", "opcode_xor_flag", "opcode_or_flag", "opcode_and_flag"][ins.op as usize - 512], 1);
                    }
                    air::LT => {
                        set!("cmp_result", a);
                        set!(if ins.op == 520 { "opcode_slt_flag" } else { "opcode_sltu_flag" }, 1);
                        lt_cols(&mut r, b, c, ins.op == 520, a == 1, ("b_msb_f", "c_msb_f"));
                    }
                    air::SHIFT => {
                        limbs!("a", a);
                        set!(["opcode_sll_flag", "opcode_srl_flag", "opcode_sra_flag"][ins.op as usize - 517], 1);
                        let (bits, limb) = (c & 7, (c & 31) >> 3);
                        set!(&format!("bit_shift_marker__{bits}"), 1);
                        set!(&format!("limb_shift_marker__{limb}"), 1);
                        set!(if ins.op == 517 { "bit_multiplier_left" } else { "bit_multiplier_right" }, 1u64 << bits);
                        if ins.op == 519 {
                            set!("b_sign", b >> 31);
                        }
                        for i in 0..4 {
                            let x = lb(b, i);
                            set!(&format!("bit_shift_carry__{i}"), if ins.op == 517 { x >> (8 - bits) } else { x & ((1 << bits) - 1) });
                        }
                    }
                    air::MUL => {
                        limbs!("a", a);
                        set!("is_valid", 1);
                    }
                    air::MULH => {
                        limbs!("a", a);
                        limbs!("a_mul", b.wrapping_mul(c));
                        set!(["opcode_mulh_flag", "opcode_mulhsu_flag", "opcode_mulhu_flag"][ins.op as usize - 593], 1);
                        set!("b_ext", if ins.op != 595 && b >> 31 == 1 { 255 } else { 0 });
                        set!("c_ext", if ins.op == 593 && c >> 31 == 1 { 255 } else { 0 });
                    }
                    _ => {
                        let signed = matches!(ins.op, 596 | 598);
                        let (q, rem) = if signed { (alu(596, b, c), alu(598, b, c)) } else { (alu(597, b, c), alu(599, b, c)) };
                        set!(["opcode_div_flag", "opcode_divu_flag", "opcode_rem_flag", "opcode_remu_flag"][ins.op as usize - 596], 1);
                        limbs!("q", q);
                        limbs!("r", rem);
                        let zd = c == 0;
                        let rz = rem == 0 && !zd;
                        set!("zero_divisor", zd);
                        set!("r_zero", rz);
                        let bs = signed && b >> 31 == 1;
                        let cs = signed && c >> 31 == 1;
                        let overflow = signed && b == 0x8000_0000 && c == u32::MAX;
                        let qs = if overflow { false } else { signed && q >> 31 == 1 };
                        set!("b_sign", bs);
                        set!("c_sign", cs);
                        set!("q_sign", qs);
                        let sx = bs != cs;
                        set!("sign_xor", sx);
                        let sum = |x: u32| x.to_le_bytes().iter().map(|b| *b as u64).sum::<u64>();
                        if sum(c) != 0 {
                            set!("c_sum_inv", inv(sum(c)));
                        }
                        if sum(rem) != 0 {
                            set!("r_sum_inv", inv(sum(rem)));
                        }
                        let rp = if sx { rem.wrapping_neg() } else { rem };
                        limbs!("r_prime", rp);
                        for i in 0..4 {
                            set!(&format!("r_inv__{i}"), inv(sub(lb(rp, i), 256)));
                        }
                        if !zd && !rz {
                            if let Some(i) = (0..4).rev().find(|i| lb(rp, *i) != lb(c, *i)) {
                                set!(&format!("lt_marker__{i}"), 1);
                                set!("lt_diff", if cs { sub(lb(rp, i), lb(c, i)) } else { sub(lb(c, i), lb(rp, i)) });
                            }
                        }
                    }
                }
            }
        }
        air::BEQ | air::BLT => {
            let (a, pa) = s.touch((1, a0), ts, None);
            let (b, pb) = s.touch((1, a1), ts + 1, None);
            let t = taken(ins.op, a, b);
            dts = 2;
            if t {
                next_pc = add(pc, a2 as u64);
            }
            if rows {
                set!("rs1_ptr", a0);
                set!("rs2_ptr", a1);
                aux!("reads_aux__0__base", ts, pa);
                aux!("reads_aux__1__base", ts + 1, pb);
                limbs!("a", a);
                limbs!("b", b);
                set!("imm", a2);
                set!("cmp_result", t);
                if air == air::BEQ {
                    set!(if ins.op == 544 { "opcode_beq_flag" } else { "opcode_bne_flag" }, 1);
                    if let Some(i) = (0..4).find(|i| lb(a, *i) != lb(b, *i)) {
                        set!(&format!("diff_inv_marker__{i}"), inv(sub(lb(a, i), lb(b, i))));
                    }
                } else {
                    set!(["opcode_blt_flag", "opcode_bltu_flag", "opcode_bge_flag", "opcode_bgeu_flag"][ins.op as usize - 549], 1);
                    let signed = matches!(ins.op, 549 | 551);
                    let less = if signed { (a as i32) < (b as i32) } else { a < b };
                    set!("cmp_lt", less);
                    lt_cols(&mut r, a, b, signed, less, ("a_msb_f", "b_msb_f"));
                }
            }
        }
        air::JALLUI => {
            set!("inner__from_state__pc", pc);
            set!("inner__from_state__timestamp", ts);
            dts = 1;
            let rd = if ins.op == 560 {
                next_pc = add(pc, a2 as u64);
                s.pc.wrapping_add(4)
            } else {
                a2 << 12
            };
            set!(if ins.op == 560 { "is_jal" } else { "is_lui" }, 1);
            set!("inner__rd_ptr", a0);
            set!("imm", a2);
            set!("needs_write", a5);
            limbs!("rd_data", rd);
            if a5 == 1 {
                let (old, p) = s.touch((1, a0), ts, Some(rd));
                aux!("inner__rd_aux_cols__base", ts, p);
                limbs!("inner__rd_aux_cols__prev_data", old);
            }
        }
        air::JALR => {
            let (b, p) = s.touch((1, a1), ts, None);
            dts = 2;
            let to = b.wrapping_add(a2 | if a6 == 1 { 0xffff_0000 } else { 0 });
            if to >= 1 << 30 {
                return Err(Stop::Trap("jump out of range"));
            }
            next_pc = (to & !1) as u64;
            let rd = s.pc.wrapping_add(4);
            if rows {
                set!("rs1_ptr", a1);
                aux!("rs1_aux_cols__base", ts, p);
                limbs!("rs1_data", b);
                set!("rd_ptr", a0);
                set!("imm", a2);
                set!("imm_sign", a6);
                set!("needs_write", a5);
                set!("is_valid", 1);
                for i in 0..3 {
                    set!(&format!("rd_data__{i}"), lb(rd, i + 1));
                }
                set!("to_pc_least_sig_bit", to & 1);
                set!("to_pc_limbs__0", (to & 0xffff) >> 1);
                set!("to_pc_limbs__1", to >> 16);
            }
            if a5 == 1 {
                let (old, p) = s.touch((1, a0), ts + 1, Some(rd));
                aux!("rd_aux_cols__base", ts + 1, p);
                limbs!("rd_aux_cols__prev_data", old);
            }
        }
        air::AUIPC => {
            dts = 1;
            let rd = s.pc.wrapping_add(a2 << 8);
            let (old, p) = s.touch((1, a0), ts, Some(rd));
            if rows {
                set!("rd_ptr", a0);
                set!("is_valid", 1);
                aux!("rd_aux_cols__base", ts, p);
                limbs!("rd_aux_cols__prev_data", old);
                limbs!("rd_data", rd);
                for i in 0..3 {
                    set!(&format!("imm_limbs__{i}"), lb(a2, i));
                }
                set!("pc_limbs__0", lb(s.pc, 1));
                set!("pc_limbs__1", lb(s.pc, 2));
            }
        }
        air::LS | air::LSX => {
            let (base, p) = s.touch((1, a1), ts, None);
            dts = 3;
            let ptr = base.wrapping_add(a2 | if a6 == 1 { 0xffff_0000 } else { 0 });
            if ptr >= 1 << 29 {
                return Err(Stop::Trap("address out of range"));
            }
            let width = match ins.op {
                528 | 531 => 4,
                530 | 532 | 535 => 2,
                _ => 1,
            };
            if ptr % width != 0 {
                return Err(Stop::Trap("misaligned access"));
            }
            let (w, sh) = (ptr & !3, ptr & 3);
            let load = !matches!(ins.op, 531..=533);
            let (rd_addr, wr_addr) = if load { ((2, w), (1, a0)) } else { ((1, a0), (2, w)) };
            let (data, pd) = s.touch(rd_addr, ts + 1, None);
            let (prev, pw) = s.cells.get(&wr_addr).copied().unwrap_or((0, 0));
            let out = match ins.op {
                528 => data,
                529 => (data >> (8 * sh)) & 0xff,
                530 => (data >> (8 * sh)) & 0xffff,
                534 => ((data >> (8 * sh)) as i8) as i32 as u32,
                535 => ((data >> (8 * sh)) as i16) as i32 as u32,
                531 => data,
                532 => prev & !(0xffff << (8 * sh)) | (data & 0xffff) << (8 * sh),
                _ => prev & !(0xff << (8 * sh)) | (data & 0xff) << (8 * sh),
            };
            if a5 == 1 {
                s.touch(wr_addr, ts + 2, Some(out));
            }
            if rows {
                set!("rs1_ptr", a1);
                limbs!("rs1_data", base);
                aux!("rs1_aux_cols__base", ts, p);
                set!("rd_rs2_ptr", a0);
                aux!("read_data_aux__base", ts + 1, pd);
                set!("imm", a2);
                set!("imm_sign", a6);
                set!("mem_ptr_limbs__0", ptr & 0xffff);
                set!("mem_ptr_limbs__1", ptr >> 16);
                set!("mem_as", a4);
                set!("needs_write", a5);
                if a5 == 1 {
                    aux!("write_base_aux", ts + 2, pw);
                    limbs!("prev_data", prev);
                }
                if air == air::LS {
                    set!("is_valid", 1);
                    set!("is_load", load);
                    limbs!("read_data", data);
                    // with no write the AIR still fixes write_data from prev_data = 0
                    limbs!("write_data", out);
                    let fl: &[(usize, u64)] = match (ins.op, sh) {
                        (528, _) => &[(0, 2)],
                        (530, 0) => &[(1, 2)],
                        (530, _) => &[(2, 2)],
                        (529, 0) => &[(3, 2)],
                        (529, 1) => &[(0, 1)],
                        (529, 2) => &[(1, 1)],
                        (529, _) => &[(2, 1)],
                        (531, _) => &[(3, 1)],
                        (532, 0) => &[(0, 1), (1, 1)],
                        (532, _) => &[(0, 1), (2, 1)],
                        (533, 0) => &[(0, 1), (3, 1)],
                        (533, 1) => &[(1, 1), (2, 1)],
                        (533, 2) => &[(1, 1), (3, 1)],
                        _ => &[(2, 1), (3, 1)],
                    };
                    for (i, v) in fl {
                        set!(&format!("flags__{i}"), *v);
                    }
                } else {
                    set!("shift_most_sig_bit", sh >> 1);
                    limbs!("shifted_read_data", if sh >= 2 { data.rotate_right(16) } else { data });
                    set!("data_most_sig_bit", out >> 31);
                    set!(
                        match (ins.op, sh & 1) {
                            (535, _) => "opcode_loadh_flag",
                            (_, 0) => "opcode_loadb_flag0",
                            _ => "opcode_loadb_flag1",
                        },
                        1
                    );
                }
            }
        }
        _ => unreachable!(),
    }
    s.ts = ts + dts;
    s.pc = next_pc as u32;
    Ok(r.v)
}
#[allow(dead_code)]
fn _u() -> (u64, u64) {
    (mul(1, 1), neg(0))
}
