//! Random machines with a reference semantics: a machine is grown from gadgets, each of
//! which adds columns, constraints, lookups and a step that computes the columns from
//! what the machine receives on its stateful buses (and from explicit free choices).
use super::mach::*;
use super::*;
use crate::gen::{below, chance, pick, range};
use powdr_autoprecompiles::expression::{AlgebraicExpression, AlgebraicReference};
use powdr_autoprecompiles::symbolic_machine::{SymbolicBusInteraction, SymbolicMachine};
use powdr_expression::AlgebraicBinaryOperator;
use powdr_number::BabyBearField as F;
use std::collections::BTreeMap;
use std::sync::Arc;

pub type E = AlgebraicExpression<F>;
pub fn n(x: u64) -> E {
    E::Number(F::from(x))
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dom {
    Byte,
    Below(u64),
    Of(u64, u64),
}
#[derive(Clone, Debug)]
enum Step {
    Time(usize),
    Set(usize, Ex),
    Xor(usize, Ex, Ex),
    Bits(usize, Ex, u32, u32),
    Eq0(usize, Ex),
    /// 1 / e, anything if e = 0
    Inv(usize, Ex),
    /// cols[0] * e0 + cols[1] * e1 = 1 if possible
    Inv2([usize; 2], [Ex; 2]),
    /// e0 / e1, anything if e1 = 0
    Div(usize, Ex, Ex),
    /// x < y, limbs from the least significant one; marker of the first difference, its size
    Cmp { x: Vec<Ex>, y: Vec<Ex>, lt: usize, marker: Vec<usize>, diff: usize },
    Choice(usize, Vec<Ex>),
    Hot(Vec<usize>, Ex),
    Any(usize),
    Read { space: u64, ptr: Ex, data: [usize; 4], pts: usize, cond: Option<Ex>, dom: [Dom; 4] },
    Write { space: u64, ptr: Ex, data: [Ex; 4], ts: Ex, cond: Option<Ex> },
}
pub trait Source {
    fn choice(&mut self, n: usize) -> usize;
    fn junk(&mut self) -> u64;
    fn time(&mut self) -> u64;
    fn cell(&mut self, k: (u64, u64), before: u64, dom: &[Dom; 4]) -> Option<([u64; 4], u64)>;
}
#[derive(Clone, Debug)]
pub struct Val {
    pub e: E,
    pub max: u64,
}
/// What belongs to one instruction.
#[derive(Clone, Debug)]
pub struct Cut {
    pub pc: u64,
    /// of its basic block
    pub first: bool,
    pub cols: std::ops::Range<usize>,
    cons: std::ops::Range<usize>,
    bus: std::ops::Range<usize>,
    pub args: Vec<(usize, u64)>,
    /// pc and selector columns
    at: [usize; 2],
}
fn relabel(e: &E, ix: &BTreeMap<u64, u64>, names: &[Arc<String>]) -> E {
    match e {
        E::Number(x) => E::Number(*x),
        E::Reference(r) => {
            let id = ix[&r.id];
            E::Reference(AlgebraicReference { name: names[id as usize].clone(), id })
        }
        E::BinaryOperation(b) => {
            let (l, r) = (relabel(&b.left, ix, names), relabel(&b.right, ix, names));
            match b.op {
                AlgebraicBinaryOperator::Add => l + r,
                AlgebraicBinaryOperator::Sub => l - r,
                AlgebraicBinaryOperator::Mul => l * r,
            }
        }
        E::UnaryOperation(u) => -relabel(&u.expr, ix, names),
    }
}
pub struct Sys {
    pub cols: Vec<String>,
    pub cons: Vec<E>,
    pub bus: Vec<SymbolicBusInteraction<F>>,
    steps: Vec<Step>,
    pub combos: usize,
    pub vals: Vec<Val>,
    pub names: Vec<&'static str>,
    ptrs: Vec<E>,
    /// operands that hold register addresses
    regs: Vec<E>,
    pub cuts: Vec<Cut>,
    id: BTreeMap<u64, usize>,
    ts: E,
    dt: u64,
    /// redundant and scaled copies
    pub noise: bool,
}
impl Sys {
    fn col(&mut self, name: &str) -> usize {
        let i = self.cols.len();
        self.cols.push(format!("{name}_{i}"));
        self.id.insert(i as u64, i);
        i
    }
    fn r(&self, i: usize) -> E {
        E::Reference(AlgebraicReference { name: Arc::new(self.cols[i].clone()), id: i as u64 })
    }
    fn ex(&self, e: &E) -> Ex {
        Ex::build(e, &self.id).unwrap()
    }
    fn zero(&mut self, e: E) {
        let e = if self.noise && chance(1, 6) { e * n(pick(&[2, 3, P - 1, 256, inv(256)])) } else { e };
        self.cons.push(e.clone());
        if self.noise && chance(1, 12) {
            match below(3) {
                0 => self.cons.push(e),
                1 => self.cons.push(e * n(7)),
                _ => {
                    let v = self.val(1);
                    // a multiple of it
                    if Ex::build(&e, &self.id).unwrap().degree() <= 2 {
                        self.cons.push(e * (v.e + n(1)));
                    }
                }
            }
        }
    }
    fn send(&mut self, id: u64, mult: E, args: Vec<E>) {
        self.bus.push(SymbolicBusInteraction { id, mult, args });
    }
    /// A value of at most `max`, the latest ones preferred.
    fn val(&self, max: u64) -> Val {
        let c: Vec<&Val> = self.vals.iter().filter(|v| v.max <= max).collect();
        if c.is_empty() {
            return Val { e: n(1.min(max)), max: 1.min(max) };
        }
        let i = if chance(1, 2) { c.len() - 1 - below(c.len().min(4)) } else { below(c.len()) };
        c[i].clone()
    }
    /// A byte that is not a constant if there is one.
    fn byte(&self) -> Val {
        self.val(255)
    }
    fn is_bool(&mut self, e: &E) {
        match below(5) {
            0 => self.send(VRANGE, n(1), vec![e.clone(), n(1)]),
            1 => self.zero(e.clone() * (n(1) - e.clone())),
            _ => self.zero(e.clone() * (e.clone() - n(1))),
        }
    }
    fn is_below(&mut self, e: &E, bits: u32) {
        match below(4) {
            0 if bits < 8 => {
                self.send(BITWISE, n(1), vec![e.clone(), e.clone() * n(1 << (8 - bits)), n(0), n(0)]);
            }
            1 if bits <= 11 => {
                let b = self.byte().e;
                if bits < 11 {
                    self.send(VRANGE, n(1), vec![e.clone(), n(bits as u64)]);
                }
                self.send(TUPLE, n(1), vec![b, e.clone()]);
            }
            _ => self.send(VRANGE, n(1), vec![e.clone(), n(bits as u64)]),
        }
    }
    fn is_byte(&mut self, e: &E) {
        match below(6) {
            0 => self.send(VRANGE, n(1), vec![e.clone(), n(8)]),
            1 => {
                let v = self.val(2047).e;
                self.send(TUPLE, n(1), vec![e.clone(), v]);
            }
            2 => self.send(BITWISE, n(1), vec![e.clone(), n(0), e.clone(), n(1)]),
            3 => {
                let b = self.byte().e;
                self.send(BITWISE, n(1), vec![b, e.clone(), n(0), n(0)]);
            }
            _ => self.send(BITWISE, n(1), vec![e.clone(), n(0), n(0), n(0)]),
        }
    }
    fn add_val(&mut self, c: usize, max: u64) -> E {
        let e = self.r(c);
        self.vals.push(Val { e: e.clone(), max });
        e
    }
    fn boolean(&mut self) -> Val {
        let c: Vec<Val> = self.vals.iter().filter(|v| v.max == 1).cloned().collect();
        if c.is_empty() || chance(1, 4) {
            self.gadget(if chance(2, 3) { 2 } else { 0 });
            return self.boolean();
        }
        pick(&c)
    }
    fn read(&mut self) {
        let space = if chance(1, 4) { 2 } else { 1 };
        let ptr = self.pointer(space);
        let cond = chance(1, 6).then(|| self.boolean().e);
        let data: [usize; 4] = std::array::from_fn(|i| self.col(&format!("r{i}")));
        let pts = self.col("pts");
        let now = self.ts.clone() + n(self.dt);
        self.dt += 1;
        let dom: [Dom; 4] = std::array::from_fn(|_| match below(8) {
            0 => Dom::Below(2),
            1 => Dom::Of(below(4) as u64, 1 + below(200) as u64),
            2 => Dom::Below(1 << (1 + below(7))),
            _ => Dom::Byte,
        });
        let p = self.ex(&ptr);
        let cx = cond.as_ref().map(|c| self.ex(c));
        self.steps.push(Step::Read { space, ptr: p, data, pts, cond: cx, dom });
        let d: Vec<E> = data.iter().map(|c| self.r(*c)).collect();
        let m = cond.clone().unwrap_or(n(1));
        let msg = |d: &[E], t: E| [vec![n(space), ptr.clone()], d.to_vec(), vec![t]].concat();
        let pe = self.r(pts);
        self.send(MEM, if cond.is_some() { -m.clone() } else { n(P - 1) }, msg(&d, pe.clone()));
        // reads write back; a write of other data follows as an access of its own
        let w: Vec<E> = d.clone();
        self.send(MEM, m.clone(), msg(&w, now.clone()));
        let (sp, st, sw) = (self.ex(&ptr), self.ex(&now), std::array::from_fn(|i| self.ex(&w[i])));
        let cx = cond.as_ref().map(|c| self.ex(c));
        self.steps.push(Step::Write { space, ptr: sp, data: sw, ts: st, cond: cx });
        self.ordered(now, pe, &cond);
        for (i, c) in data.iter().enumerate() {
            let e = self.r(*c);
            // the machine insists on the domain it draws from; other accesses might not fit, so only for narrow ones here
            match dom[i] {
                Dom::Byte => {
                    if chance(1, 4) {
                        self.is_byte(&e);
                    }
                }
                Dom::Below(2) if cond.is_none() => self.is_bool(&e),
                Dom::Below(k) if cond.is_none() => self.is_below(&e, k.trailing_zeros()),
                Dom::Of(a, b) if cond.is_none() => self.zero((e.clone() - n(a)) * (e.clone() - n(b))),
                _ => {}
            }
            if let Some(b) = &cond {
                let y = self.col("cr");
                let ye = self.r(y);
                let f = b.clone() * e;
                let fx = self.ex(&f);
                self.steps.push(Step::Set(y, fx));
                self.zero(ye - f);
                self.add_val(y, 255);
            } else {
                let max = match dom[i] {
                    Dom::Byte => 255,
                    Dom::Below(k) => k - 1,
                    Dom::Of(a, b) => a.max(b),
                };
                self.vals.push(Val { e, max });
            }
        }
    }
    fn pointer(&mut self, space: u64) -> E {
        if space == 1 && !self.regs.is_empty() && chance(2, 3) {
            return pick(&self.regs);
        }
        if space == 1 {
            return n(pick(&[4, 8, 12, 16]));
        }
        let p = match below(6) {
            0 => n(pick(&[4, 8, 12])),
            1 | 2 if !self.ptrs.is_empty() => {
                let p = pick(&self.ptrs);
                match below(4) {
                    0 => p + n(pick(&[4, 8, P - 4])),
                    1 => p + self.boolean().e * n(4),
                    _ => p,
                }
            }
            3 if !self.ptrs.is_empty() => pick(&self.ptrs),
            _ => self.byte().e * n(4) + self.byte().e * n(1024) + n(pick(&[0, 4, 8])),
        };
        self.ptrs.push(p.clone());
        p
    }
    /// The access it follows is earlier.
    fn ordered(&mut self, now: E, pe: E, cond: &Option<E>) {
        let (lo, hi) = (self.col("lo"), self.col("hi"));
        let diff = now - pe - n(1);
        let dx = self.ex(&diff);
        self.steps.push(Step::Bits(lo, dx.clone(), 0, 17));
        self.steps.push(Step::Bits(hi, dx, 17, 12));
        let (l, h) = (self.r(lo), self.r(hi));
        let e = diff - l.clone() - h.clone() * n(1 << 17);
        self.zero(match cond {
            Some(b) => b.clone() * e,
            None => e,
        });
        let m = cond.clone().filter(|_| chance(1, 2)).unwrap_or(n(1));
        self.send(VRANGE, m.clone(), vec![l, n(17)]);
        self.send(VRANGE, m, vec![h, n(12)]);
    }
    fn write(&mut self) {
        let space = if chance(1, 4) { 2 } else { 1 };
        let ptr = self.pointer(space);
        let cond = chance(1, 5).then(|| self.boolean().e);
        let old: [usize; 4] = std::array::from_fn(|i| self.col(&format!("o{i}")));
        let pts = self.col("pts");
        let now = self.ts.clone() + n(self.dt);
        self.dt += 1;
        let (p, cx) = (self.ex(&ptr), cond.as_ref().map(|c| self.ex(c)));
        self.steps.push(Step::Read { space, ptr: p.clone(), data: old, pts, cond: cx.clone(), dom: [Dom::Byte; 4] });
        let d: Vec<E> = (0..4).map(|_| if chance(1, 5) { n(below(256) as u64) } else { self.byte().e }).collect();
        let m = cond.clone().unwrap_or(n(1));
        let o: Vec<E> = old.iter().map(|c| self.r(*c)).collect();
        let pe = self.r(pts);
        self.send(MEM, if cond.is_some() { -m.clone() } else { n(P - 1) }, [vec![n(space), ptr.clone()], o, vec![pe]].concat());
        self.send(MEM, m, [vec![n(space), ptr], d.clone(), vec![now.clone()]].concat());
        let (st, sw) = (self.ex(&now), std::array::from_fn(|i| self.ex(&d[i])));
        self.steps.push(Step::Write { space, ptr: p, data: sw, ts: st, cond: cx });
        let pe = self.r(pts);
        self.ordered(now, pe, &cond);
    }
    pub const GADGETS: [&'static str; 29] = [
        "free bit", "free set", "is zero", "linear", "select", "either", "xor", "or", "add with carry", "multiply", "split", "one-hot of a value", "free one-hot", "masked", "both zero", "less than",
        "scaled", "constant", "difference", "guarded select", "carry as expression", "conditional lookup",
        "compare words", "sum modulo, twice", "free lookup", "assertion", "not zero", "at most one", "bits",
    ];
    pub fn gadget(&mut self, k: usize) {
        self.names.push(Self::GADGETS[k]);
        match k {
            0 => {
                if self.combos > 32 {
                    return self.gadget(2);
                }
                self.combos *= 2;
                let c = self.col("b");
                let v = vec![self.ex(&n(0)), self.ex(&n(1))];
                self.steps.push(Step::Choice(c, v));
                let e = self.r(c);
                self.is_bool(&e);
                self.add_val(c, 1);
            }
            1 => {
                if self.combos > 24 {
                    return self.gadget(2);
                }
                self.combos *= 3;
                let c = self.col("s");
                let s: Vec<u64> = (0..3).map(|_| below(9) as u64).collect();
                let v = s.iter().map(|x| self.ex(&n(*x))).collect();
                self.steps.push(Step::Choice(c, v));
                let e = self.r(c);
                self.zero((e.clone() - n(s[0])) * (e.clone() - n(s[1])) * (e - n(s[2])));
                self.add_val(c, s.into_iter().max().unwrap());
            }
            2 => {
                let x = self.val(1 << 16);
                let e = match below(4) {
                    0 => x.e.clone() - self.byte().e,
                    1 => x.e.clone() - n(below(4) as u64),
                    2 => x.e.clone() + self.byte().e,
                    _ => x.e.clone(),
                };
                let (b, i) = (self.col("z"), self.col("inv"));
                let ex = self.ex(&e);
                self.steps.push(Step::Eq0(b, ex.clone()));
                self.steps.push(Step::Inv(i, ex));
                let (be, ie) = (self.r(b), self.r(i));
                if chance(1, 2) {
                    self.is_bool(&be);
                }
                self.zero(be.clone() * e.clone());
                self.zero(e * ie + be - n(1));
                self.add_val(b, 1);
            }
            3 => {
                let y = self.col("l");
                let (a, b) = (self.val(1 << 12), self.val(1 << 12));
                let (p, q, o) = (1 + below(3) as u64, 1 + below(3) as u64, below(5) as u64);
                let e = a.e * n(p) + b.e * n(q) + n(o);
                let ex = self.ex(&e);
                self.steps.push(Step::Set(y, ex));
                let ye = self.r(y);
                self.zero(ye - e);
                self.add_val(y, a.max * p + b.max * q + o);
            }
            4 | 19 => {
                let b = self.boolean();
                let (x, z) = (self.val(1 << 16), if chance(1, 3) { Val { e: n(0), max: 0 } } else { self.val(1 << 16) });
                let y = self.col("sel");
                let e = b.e.clone() * (x.e.clone() - z.e.clone()) + z.e.clone();
                let ex = self.ex(&e);
                self.steps.push(Step::Set(y, ex));
                let ye = self.r(y);
                if k == 4 {
                    self.zero(ye - e);
                } else {
                    self.zero(b.e.clone() * (ye.clone() - x.e));
                    self.zero((n(1) - b.e) * (ye - z.e));
                }
                self.add_val(y, x.max.max(z.max));
            }
            5 => {
                if self.combos > 32 {
                    return self.gadget(4);
                }
                self.combos *= 2;
                let (x, z) = (self.val(1 << 16), self.val(1 << 16));
                let y = self.col("or");
                let v = vec![self.ex(&x.e), self.ex(&z.e)];
                self.steps.push(Step::Choice(y, v));
                let ye = self.r(y);
                self.zero((ye.clone() - x.e) * (ye - z.e));
                self.add_val(y, x.max.max(z.max));
            }
            6 | 7 => {
                let (x, z) = (self.byte(), if chance(1, 4) { Val { e: n(below(256) as u64), max: 255 } } else { self.byte() });
                let y = self.col("x");
                let (xe, ze) = (self.ex(&x.e), self.ex(&z.e));
                self.steps.push(Step::Xor(y, xe, ze));
                let ye = self.r(y);
                self.send(BITWISE, n(1), vec![x.e.clone(), z.e.clone(), ye.clone(), n(1)]);
                self.add_val(y, 255);
                if k == 7 {
                    let o = self.col("and");
                    let e = (x.e + z.e - ye) * n(inv(2));
                    let ex = self.ex(&e);
                    self.steps.push(Step::Set(o, ex));
                    let oe = self.r(o);
                    self.zero(oe - e);
                    self.add_val(o, 255);
                }
            }
            8 | 20 => {
                let (x, z) = (self.byte(), self.byte());
                let cin = if chance(1, 2) { self.val(1).e } else { n(0) };
                let y = self.col("a");
                let s = x.e + z.e + cin;
                let sx = self.ex(&s);
                self.steps.push(Step::Bits(y, sx.clone(), 0, 8));
                let ye = self.r(y);
                if k == 8 {
                    let c = self.col("c");
                    self.steps.push(Step::Bits(c, sx, 8, 1));
                    let ce = self.r(c);
                    self.zero(s - ye.clone() - ce.clone() * n(256));
                    self.is_bool(&ce);
                    self.add_val(c, 1);
                } else {
                    let ce = (s - ye.clone()) * n(inv(256));
                    self.zero(ce.clone() * (ce.clone() - n(1)));
                    if chance(1, 2) {
                        self.vals.push(Val { e: ce, max: 1 });
                    }
                }
                self.is_byte(&ye);
                self.add_val(y, 255);
            }
            9 => {
                let (x, z) = (self.byte(), self.byte());
                let p = x.e * z.e;
                let (lo, hi) = (self.col("ml"), self.col("mh"));
                let px = self.ex(&p);
                self.steps.push(Step::Bits(lo, px.clone(), 0, 8));
                self.steps.push(Step::Bits(hi, px, 8, 8));
                let (l, h) = (self.r(lo), self.r(hi));
                self.zero(p - l.clone() - h.clone() * n(256));
                if chance(1, 2) {
                    self.send(TUPLE, n(1), vec![l, h]);
                } else {
                    self.is_byte(&l);
                    self.is_byte(&h);
                }
                self.add_val(lo, 255);
                self.add_val(hi, 255);
            }
            10 => {
                let x = self.byte();
                let k = 1 + below(7) as u32;
                let (lo, hi) = (self.col("sl"), self.col("sh"));
                let px = self.ex(&x.e);
                self.steps.push(Step::Bits(lo, px.clone(), 0, k));
                self.steps.push(Step::Bits(hi, px, k, 8 - k));
                let (l, h) = (self.r(lo), self.r(hi));
                self.zero(x.e - l.clone() - h.clone() * n(1 << k));
                self.is_below(&l, k);
                self.is_below(&h, 8 - k);
                self.add_val(lo, (1 << k) - 1);
                self.add_val(hi, (1 << (8 - k)) - 1);
            }
            11 | 12 => {
                let size = 2 + below(3);
                let small: Vec<Val> = self.vals.iter().filter(|v| v.max < size as u64).cloned().collect();
                let of_value = k == 11 && !small.is_empty();
                let c: Vec<usize> = (0..size).map(|_| self.col("f")).collect();
                let f: Vec<E> = c.iter().map(|c| self.r(*c)).collect();
                for e in &f {
                    self.is_bool(e);
                }
                let sum = f.iter().cloned().reduce(|a, b| a + b).unwrap();
                let ix = f.iter().enumerate().map(|(i, e)| e.clone() * n(i as u64)).reduce(|a, b| a + b).unwrap();
                if of_value {
                    let x = pick(&small);
                    let xe = self.ex(&x.e);
                    self.steps.push(Step::Hot(c.clone(), xe));
                    self.zero(sum - n(1));
                    self.zero(ix.clone() - x.e);
                } else {
                    if self.combos * size > 64 {
                        // all but a drawn one are forced
                        let at = below(size);
                        let xe = self.ex(&n(at as u64));
                        self.steps.push(Step::Hot(c.clone(), xe));
                        self.zero(sum - n(1));
                        self.zero(ix.clone() - n(at as u64));
                    } else {
                        self.combos *= size;
                        let w = self.col("w");
                        let v = (0..size).map(|i| self.ex(&n(i as u64))).collect();
                        self.steps.push(Step::Choice(w, v));
                        let we = self.r(w);
                        let wx = self.ex(&we);
                        self.steps.push(Step::Hot(c.clone(), wx));
                        self.zero(sum - n(1));
                        self.zero(we - ix.clone());
                    }
                }
                for e in &f {
                    self.vals.push(Val { e: e.clone(), max: 1 });
                }
                if chance(1, 2) {
                    let y = self.col("hs");
                    let xs: Vec<Val> = f.iter().map(|_| self.byte()).collect();
                    let e = f.into_iter().zip(&xs).map(|(a, b)| a * b.e.clone()).reduce(|a, b| a + b).unwrap();
                    let ex = self.ex(&e);
                    self.steps.push(Step::Set(y, ex));
                    let ye = self.r(y);
                    self.zero(ye - e);
                    self.add_val(y, xs.iter().map(|x| x.max).max().unwrap());
                } else {
                    self.vals.push(Val { e: ix, max: size as u64 - 1 });
                }
            }
            13 => {
                let b = self.boolean();
                let x = self.val(1 << 16);
                let y = self.col("m");
                let e = b.e.clone() * x.e.clone();
                let ex = self.ex(&e);
                self.steps.push(Step::Set(y, ex));
                let ye = self.r(y);
                self.zero((n(1) - b.e.clone()) * ye.clone());
                self.zero(b.e * (ye - x.e));
                self.add_val(y, x.max);
            }
            14 => {
                let (x, z) = (self.val(1 << 16), self.val(1 << 16));
                let x = if chance(1, 3) { x.e - self.byte().e } else { x.e };
                let b = self.col("nz");
                let v = [self.col("v"), self.col("v")];
                let (ex, ez) = (self.ex(&x), self.ex(&z.e));
                self.steps.push(Step::Inv2(v, [ex, ez]));
                let (v0, v1, be) = (self.r(v[0]), self.r(v[1]), self.r(b));
                let s = x.clone() * v0 + z.e.clone() * v1;
                let be2 = n(1) - s.clone();
                let bx = self.ex(&be2);
                self.steps.push(Step::Set(b, bx));
                self.zero(be.clone() * x);
                self.zero(be.clone() * z.e);
                self.zero(s + be - n(1));
                self.add_val(b, 1);
            }
            15 => {
                let (x, z) = (self.byte(), self.byte());
                let b = self.col("lt");
                let d = x.e.clone() - z.e.clone();
                let t = d.clone() + n(256);
                let tx = self.ex(&(n(511) - t));
                self.steps.push(Step::Bits(b, tx, 8, 1));
                let be = self.r(b);
                self.is_bool(&be);
                let e = d + be * n(256);
                self.is_byte(&e);
                self.add_val(b, 1);
            }
            16 => {
                let x = self.val(1 << 12);
                let k = 1 + below(5) as u64;
                let y = self.col("k");
                let e = x.e * n(k);
                let ex = self.ex(&e);
                self.steps.push(Step::Set(y, ex));
                let ye = self.r(y);
                if chance(1, 2) {
                    self.zero(ye - e);
                } else {
                    // squared
                    self.zero((ye.clone() - e.clone()) * (ye - e));
                }
                self.add_val(y, x.max * k);
            }
            17 => {
                let y = self.col("q");
                let v = below(256) as u64;
                let vx = self.ex(&n(v));
                self.steps.push(Step::Set(y, vx));
                let ye = self.r(y);
                let b = self.byte();
                match below(3) {
                    0 => self.zero(ye * n(2) - n(2 * v)),
                    1 => self.zero((ye - n(v)) * (b.e + n(1))),
                    _ => self.zero(ye - n(v)),
                }
                self.add_val(y, v);
            }
            18 => {
                let (x, z) = (self.byte(), self.byte());
                let s = self.col("d");
                let e = x.e - z.e;
                let ex = self.ex(&e);
                self.steps.push(Step::Set(s, ex));
                let se = self.r(s);
                self.zero(se.clone() - e);
                if chance(1, 2) {
                    self.send(VRANGE, n(1), vec![se.clone() + n(256), n(9)]);
                }
                // its sign
                let b = self.col("neg");
                let t = n(511) - (se.clone() + n(256));
                let tx = self.ex(&t);
                self.steps.push(Step::Bits(b, tx, 8, 1));
                let be = self.r(b);
                self.is_bool(&be);
                let f = se + be * n(256);
                self.is_byte(&f);
                self.add_val(b, 1);
            }
            22 => {
                let k = 2 + below(3);
                let x: Vec<E> = (0..k).map(|_| self.byte().e).collect();
                let y: Vec<E> = match below(3) {
                    0 => (0..k).map(|_| self.byte().e).collect(),
                    _ => (0..k).map(|i| n((i == 0) as u64)).collect(),
                };
                let lt = self.col("lt");
                let marker: Vec<usize> = (0..k).map(|_| self.col("mk")).collect();
                let diff = self.col("df");
                let (xx, yx) = (x.iter().map(|e| self.ex(e)).collect(), y.iter().map(|e| self.ex(e)).collect());
                self.steps.push(Step::Cmp { x: xx, y: yx, lt, marker: marker.clone(), diff });
                let (l, d) = (self.r(lt), self.r(diff));
                let m: Vec<E> = marker.iter().map(|c| self.r(*c)).collect();
                self.is_bool(&l);
                let mut sum = n(0);
                for i in (0..k).rev() {
                    self.is_bool(&m[i]);
                    sum = if i + 1 == k { m[i].clone() } else { sum + m[i].clone() };
                    let df = (y[i].clone() - x[i].clone()) * (n(2) * l.clone() - n(1));
                    self.zero((n(1) - sum.clone()) * df.clone());
                    self.zero(m[i].clone() * (d.clone() - df));
                }
                self.zero(sum.clone() * (sum.clone() - n(1)));
                self.zero((n(1) - sum.clone()) * l);
                self.send(BITWISE, sum, vec![d - n(1), n(0), n(0), n(0)]);
                self.add_val(lt, 1);
            }
            23 => {
                let bits = pick(&[8u32, 10, 16]);
                let (x, z) = (self.val((1 << bits) - 1), self.val((1 << bits) - 1));
                let s = x.e + z.e + n(below(3) as u64);
                // one too many if both are at their maximum: the row is rejected then
                for _ in 0..range(1, 2) {
                    let y = self.col("sm");
                    let sx = self.ex(&s);
                    self.steps.push(Step::Bits(y, sx, 0, bits));
                    let ye = self.r(y);
                    self.send(VRANGE, n(1), vec![ye.clone(), n(bits as u64)]);
                    let d = s.clone() - ye;
                    self.zero(d.clone() * (d - n(1 << bits)));
                    self.add_val(y, (1 << bits) - 1);
                }
            }
            24 => {
                // the multiple can be chosen unless the factor is zero
                let (b, x) = (self.val(255), self.byte());
                let f = self.col("fl");
                let (fe, nx, bx) = (self.r(f), self.ex(&-x.e.clone()), self.ex(&b.e));
                self.steps.push(Step::Div(f, nx, bx));
                let e = fe * b.e + x.e;
                if chance(1, 2) {
                    self.send(VRANGE, n(1), vec![e, n(pick(&[1, 4, 7]))]);
                } else {
                    self.send(BITWISE, n(1), vec![e, n(pick(&[0, 3])), n(0), n(0)]);
                }
            }
            25 => {
                let (x, z) = (self.val(255), self.val(3));
                let (b, c) = (below(3) as u64, below(2) as u64);
                match below(5) {
                    0 => self.zero((x.e - n(b)) * (z.e - n(c))),
                    1 => self.zero(z.e * x.e),
                    2 => self.zero(z.e + self.val(3).e),
                    3 => self.zero((z.e - n(c)) * (self.val(3).e - n(c)) * (self.val(1).e - n(c))),
                    _ => {
                        let w = self.boolean();
                        self.zero(w.e * (x.e - n(b)));
                    }
                }
            }
            26 => {
                let x = self.val(255);
                let e = if chance(1, 2) { x.e - self.byte().e } else { x.e };
                let i = self.col("ni");
                let ex = self.ex(&e);
                self.steps.push(Step::Inv(i, ex));
                let ie = self.r(i);
                self.zero(e * ie - n(1));
            }
            27 => {
                let (a, b) = (self.boolean(), self.boolean());
                let c = self.val(1);
                let e = a.e + b.e + if chance(1, 2) { c.e } else { n(0) };
                self.zero(e.clone() * (e.clone() - n(1)));
                self.vals.push(Val { e, max: 1 });
            }
            28 => {
                let k = 2 + below(3) as u32;
                let x = self.val((1 << k) - 1);
                let mut sum = n(0);
                for i in 0..k {
                    let b = self.col("bt");
                    let xx = self.ex(&x.e);
                    self.steps.push(Step::Bits(b, xx, i, 1));
                    let be = self.r(b);
                    self.is_bool(&be);
                    sum = sum + be * n(1 << i);
                    self.add_val(b, 1);
                }
                self.zero(sum - x.e);
            }
            _ => {
                let b = self.boolean();
                let x = self.byte();
                // y = x if b, else anything; used only as b * y
                let y = self.col("cl");
                let f = b.e.clone() * x.e.clone();
                self.steps.push(Step::Any(y));
                let w = self.col("cw");
                let fx = self.ex(&f);
                self.steps.push(Step::Set(w, fx));
                // when the bit is set, y is the value xored with a constant
                let k = below(256) as u64;
                let (ye, we) = (self.r(y), self.r(w));
                let xe = self.ex(&x.e);
                let kx = self.ex(&n(k));
                let bx = self.ex(&b.e);
                self.steps.push(Step::Xor(y, xe, kx));
                let _ = bx;
                self.send(BITWISE, b.e.clone(), vec![x.e.clone(), n(k), ye.clone(), n(1)]);
                self.zero(we.clone() - f);
                let u = self.col("cu");
                let ue = self.r(u);
                let g = b.e * ye;
                let gx = self.ex(&g);
                self.steps.push(Step::Set(u, gx));
                self.zero(ue - g);
                self.add_val(w, 255);
                self.add_val(u, 255);
            }
        }
    }
    /// Draws a machine.
    pub fn draw(instrs: usize, gadgets: usize) -> Sys {
        Self::draw_with(instrs, gadgets, false)
    }
    /// `split`: the instructions have columns of their own (they communicate by memory only), for `airs`;
    /// control may also jump between them.
    pub fn draw_with(instrs: usize, gadgets: usize, split: bool) -> Sys {
        let mut s = Sys { cols: vec![], cons: vec![], bus: vec![], steps: vec![], combos: 1, vals: vec![], names: vec![], ptrs: vec![], regs: vec![], cuts: vec![], id: BTreeMap::new(), ts: n(0), dt: 0, noise: chance(1, 3) };
        let mut pc = if split { pick(&[0x100u64, 0x20_0000, 4]) } else { 0x100u64 };
        let k = range(1, instrs);
        let mut after: Option<E> = None;
        let mut fresh = true;
        for i in 0..k {
            let from = (s.cols.len(), s.cons.len(), s.bus.len());
            let mut pce = n(pc);
            let mut cut = Cut { pc, first: fresh, cols: 0..0, cons: 0..0, bus: 0..0, args: vec![], at: [0; 2] };
            fresh = false;
            if split {
                s.vals.clear();
                s.ptrs.clear();
                s.regs.clear();
                let c = s.col("pc");
                let x = s.ex(&n(pc));
                s.steps.push(Step::Set(c, x));
                pce = s.r(c);
                let v = s.col("v");
                let x = s.ex(&n(1));
                s.steps.push(Step::Set(v, x));
                cut.at = [c, v];
                for _ in 0..range(0, 3) {
                    let c = s.col("arg");
                    let reg = chance(2, 3);
                    let val = if reg { pick(&[4u64, 8, 12, 16]) } else { pick(&[0u64, 1, 2, 255, 7]) };
                    let x = s.ex(&n(val));
                    s.steps.push(Step::Set(c, x));
                    cut.args.push((c, val));
                    let e = s.r(c);
                    if reg {
                        s.regs.push(e);
                    } else {
                        s.vals.push(Val { e, max: val });
                    }
                }
            }
            let t = s.col("ts");
            match after {
                None => s.steps.push(Step::Time(t)),
                Some(a) => {
                    let ax = s.ex(&a);
                    s.steps.push(Step::Set(t, ax));
                }
            }
            s.ts = s.r(t);
            let ts = s.ts.clone();
            s.send(EXEC, n(P - 1), vec![pce.clone(), ts]);
            s.dt = 0;
            for _ in 0..range(1, 2) {
                s.read();
            }
            for _ in 0..range(1, gadgets) {
                let g = below(Self::GADGETS.len());
                s.gadget(g);
            }
            for _ in 0..range(0, 2) {
                s.write();
            }
            let last = i + 1 == k;
            let mut npc = pc + 4;
            let next = if (last && chance(1, 2)) || (!last && split && chance(1, 5)) {
                let d = pick(&[8u64, 16, 256]);
                fresh = true;
                if chance(1, 2) {
                    npc += d;
                }
                let b = s.boolean().e;
                pce + n(4) + b * n(d)
            } else if split {
                pce + n(4)
            } else {
                n(pc + 4)
            };
            let a = s.ts.clone() + n(s.dt);
            s.send(EXEC, n(1), vec![next, a.clone()]);
            pc = npc;
            after = Some(a);
            cut.cols = from.0..s.cols.len();
            cut.cons = from.1..s.cons.len();
            cut.bus = from.2..s.bus.len();
            s.cuts.push(cut);
        }
        s
    }
    /// The machine of one instruction, and the columns of the whole row it has.
    pub fn air(&self, k: usize) -> (SymbolicMachine<F>, Vec<usize>) {
        let c = &self.cuts[k];
        let v = self.r(c.at[1]);
        let one = n(1);
        let minus = n(P - 1);
        let guard = |m: &E| {
            if *m == one {
                v.clone()
            } else if *m == minus {
                -v.clone()
            } else {
                v.clone() * m.clone()
            }
        };
        let mut bus: Vec<SymbolicBusInteraction<F>> = self.bus[c.bus.clone()].iter().map(|b| SymbolicBusInteraction { id: b.id, mult: guard(&b.mult), args: b.args.clone() }).collect();
        let mut args = vec![self.r(c.at[0]), n(k as u64)];
        args.extend(c.args.iter().map(|a| self.r(a.0)));
        args.resize(9, n(0));
        bus.push(SymbolicBusInteraction { id: PC, mult: v.clone(), args });
        let mut cons: Vec<E> = self.cons[c.cons.clone()].to_vec();
        cons.push(v.clone() * (v.clone() - n(1)));
        let m = SymbolicMachine { constraints: cons.into_iter().map(Into::into).collect(), bus_interactions: bus, derived_columns: vec![] };
        let used: Vec<usize> = Mach::new(&m).unwrap().ids.iter().map(|i| *i as usize).collect();
        let ix: BTreeMap<u64, u64> = used.iter().enumerate().map(|(i, c)| (*c as u64, i as u64)).collect();
        assert!(used.iter().all(|u| c.cols.contains(u)), "harness: instruction {k} uses columns of another");
        let names: Vec<Arc<String>> = used.iter().enumerate().map(|(i, c)| Arc::new(format!("{}{i}", self.cols[*c].split('_').next().unwrap()))).collect();
        let f = |e: &E| relabel(e, &ix, &names);
        let m = SymbolicMachine {
            constraints: m.constraints.iter().map(|e| f(&e.expr).into()).collect(),
            bus_interactions: m.bus_interactions.iter().map(|b| SymbolicBusInteraction { id: b.id, mult: f(&b.mult), args: b.args.iter().map(f).collect() }).collect(),
            derived_columns: vec![],
        };
        (m, used)
    }
    pub fn machine(&self) -> SymbolicMachine<F> {
        SymbolicMachine { constraints: self.cons.iter().map(|e| e.clone().into()).collect(), bus_interactions: self.bus.clone(), derived_columns: vec![] }
    }
    /// Fills a row. None: needs a cell the source does not have.
    pub fn run(&self, src: &mut dyn Source) -> Option<Vec<u64>> {
        let mut row = vec![0u64; self.cols.len()];
        let mut mem: BTreeMap<(u64, u64), ([u64; 4], u64)> = BTreeMap::new();
        let mut t0 = 0;
        for s in &self.steps {
            match s {
                Step::Time(c) => {
                    row[*c] = src.time();
                    t0 = row[*c];
                }
                Step::Set(c, e) => row[*c] = e.eval(&row),
                Step::Xor(c, a, b) => row[*c] = (a.eval(&row) ^ b.eval(&row)) % P,
                Step::Bits(c, e, lo, k) => row[*c] = (e.eval(&row) >> lo) & ((1 << k) - 1),
                Step::Eq0(c, e) => row[*c] = (e.eval(&row) == 0) as u64,
                Step::Inv(c, e) => {
                    let v = e.eval(&row);
                    row[*c] = if v == 0 { src.junk() } else { inv(v) };
                }
                Step::Div(c, a, b) => {
                    let v = b.eval(&row);
                    row[*c] = if v == 0 { src.junk() } else { mul(a.eval(&row), inv(v)) };
                }
                Step::Cmp { x, y, lt, marker, diff } => {
                    let v: Vec<(u64, u64)> = x.iter().zip(y).map(|(x, y)| (x.eval(&row), y.eval(&row))).collect();
                    let at = (0..v.len()).rev().find(|i| v[*i].0 != v[*i].1);
                    row[*lt] = at.is_some_and(|i| v[i].0 < v[i].1) as u64;
                    for (i, c) in marker.iter().enumerate() {
                        row[*c] = (Some(i) == at) as u64;
                    }
                    row[*diff] = match at {
                        Some(i) => v[i].0.abs_diff(v[i].1),
                        None => src.junk(),
                    };
                }
                Step::Inv2(c, e) => {
                    let v = [e[0].eval(&row), e[1].eval(&row)];
                    match v {
                        [0, 0] => {
                            row[c[0]] = src.junk();
                            row[c[1]] = src.junk();
                        }
                        [0, b] => {
                            row[c[0]] = src.junk();
                            row[c[1]] = inv(b);
                        }
                        [a, b] => {
                            row[c[1]] = src.junk();
                            row[c[0]] = mul(sub(1, mul(b, row[c[1]])), inv(a));
                        }
                    }
                }
                Step::Choice(c, v) => {
                    let k = src.choice(v.len());
                    row[*c] = v[k].eval(&row);
                }
                Step::Hot(c, e) => {
                    let k = e.eval(&row) as usize;
                    for (i, c) in c.iter().enumerate() {
                        row[*c] = (i == k) as u64;
                    }
                }
                Step::Any(c) => row[*c] = src.junk(),
                Step::Read { space, ptr, data, pts, cond, dom } => {
                    if cond.as_ref().is_some_and(|c| c.eval(&row) == 0) {
                        for c in data {
                            row[*c] = src.junk();
                        }
                        row[*pts] = src.junk();
                        continue;
                    }
                    let k = (*space, ptr.eval(&row));
                    let (d, t) = match mem.get(&k) {
                        Some(x) => *x,
                        None => src.cell(k, t0, dom)?,
                    };
                    for (c, v) in data.iter().zip(d) {
                        row[*c] = v;
                    }
                    row[*pts] = t;
                }
                Step::Write { space, ptr, data, ts, cond } => {
                    if cond.as_ref().is_some_and(|c| c.eval(&row) == 0) {
                        continue;
                    }
                    let k = (*space, ptr.eval(&row));
                    mem.insert(k, (std::array::from_fn(|i| data[i].eval(&row)), ts.eval(&row)));
                }
            }
        }
        Some(row)
    }
}
/// Draws executions.
pub struct Sampler<'a>(pub &'a mut super::adv::Rng);
impl Source for Sampler<'_> {
    fn choice(&mut self, n: usize) -> usize {
        self.0.below(n)
    }
    fn junk(&mut self) -> u64 {
        match self.0.below(4) {
            0 => 0,
            1 => self.0.below(256) as u64,
            _ => self.0.next() % P,
        }
    }
    fn time(&mut self) -> u64 {
        1 + self.0.next() % (1 << self.0.below(24).max(4))
    }
    fn cell(&mut self, _: (u64, u64), before: u64, dom: &[Dom; 4]) -> Option<([u64; 4], u64)> {
        let r = &mut self.0;
        let d = std::array::from_fn(|i| match dom[i] {
            Dom::Byte => match r.below(6) {
                0 => 0,
                1 => 255,
                2 => r.below(4) as u64,
                _ => r.below(256) as u64,
            },
            Dom::Below(k) => r.next() % k,
            Dom::Of(a, b) => {
                if r.below(2) == 0 {
                    a
                } else {
                    b
                }
            }
        });
        Some((d, r.next() % before))
    }
}
/// Repeats an execution from what a row claims to receive.
struct Claimed<'a> {
    cells: &'a BTreeMap<(u64, u64), ([u64; 4], u64)>,
    ts: u64,
    code: usize,
}
impl Source for Claimed<'_> {
    fn choice(&mut self, n: usize) -> usize {
        let k = self.code % n;
        self.code /= n;
        k
    }
    fn junk(&mut self) -> u64 {
        0
    }
    fn time(&mut self) -> u64 {
        self.ts
    }
    fn cell(&mut self, k: (u64, u64), _: u64, _: &[Dom; 4]) -> Option<([u64; 4], u64)> {
        self.cells.get(&k).copied()
    }
}
pub enum Judged {
    Good,
    Impossible,
    Bad(String),
}
impl Sys {
    pub fn row_of(&self, m: &Mach, row: &[u64]) -> Vec<u64> {
        m.ids.iter().map(|i| row.get(*i as usize).copied().unwrap_or(0)).collect()
    }
    /// Is there an execution of the machine with this net effect?
    pub fn judge(&self, orig: &Mach, net: &Net) -> Judged {
        let ex: Vec<_> = net.iter().filter(|((b, _), m)| *b == EXEC && **m > P / 2).collect();
        if ex.len() != 1 || *ex[0].1 != P - 1 {
            return Judged::Bad("control flow inputs".into());
        }
        let ts = ex[0].0 .1[1];
        if ts == 0 || ts >= 1 << 28 {
            return Judged::Impossible;
        }
        let mut cells = BTreeMap::new();
        for ((b, k), m) in net {
            if *b != MEM || *m < P / 2 {
                continue;
            }
            if *m != P - 1 || k[2..6].iter().any(|x| *x > 255) || k[6] >= 1 << 28 {
                return Judged::Impossible;
            }
            if cells.insert((k[0], k[1]), ([k[2], k[3], k[4], k[5]], k[6])).is_some() {
                return Judged::Impossible;
            }
        }
        let mut seen = 0;
        for code in 0..self.combos {
            let Some(row) = self.run(&mut Claimed { cells: &cells, ts, code }) else { continue };
            seen += 1;
            let r = self.row_of(orig, &row);
            if orig.check(&r).is_err() {
                continue;
            }
            let mut want = Net::new();
            orig.net(&r, &mut want);
            if want == *net {
                return Judged::Good;
            }
        }
        Judged::Bad(format!("none of {} executions ({seen} with these cells) has the effect {}", self.combos, show_net(net)))
    }
}
