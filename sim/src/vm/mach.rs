//! A row verifier for symbolic machines, independent of the code under test.
use super::{add, inv, mul, neg, sub, P};
use powdr_autoprecompiles::expression::AlgebraicExpression;
use powdr_autoprecompiles::symbolic_machine::SymbolicMachine;
use powdr_constraint_solver::constraint_system::ComputationMethod;
use powdr_expression::{AlgebraicBinaryOperator as B, AlgebraicUnaryOperator as U};
use powdr_number::{BabyBearField as F, FieldElement};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
enum Op {
    N(u64),
    V(usize),
    Add,
    Sub,
    Mul,
    Neg,
}
#[derive(Clone, Debug)]
pub struct Ex {
    ops: Vec<Op>,
    pub vars: Vec<usize>,
}
pub fn num(f: &F) -> u64 {
    f.to_degree()
}
impl Ex {
    pub fn build(e: &AlgebraicExpression<F>, ix: &BTreeMap<u64, usize>) -> Option<Ex> {
        fn go(e: &AlgebraicExpression<F>, ix: &BTreeMap<u64, usize>, o: &mut Vec<Op>) -> Option<()> {
            match e {
                AlgebraicExpression::Number(n) => o.push(Op::N(num(n))),
                AlgebraicExpression::Reference(r) => o.push(Op::V(*ix.get(&r.id)?)),
                AlgebraicExpression::BinaryOperation(b) => {
                    go(&b.left, ix, o)?;
                    go(&b.right, ix, o)?;
                    o.push(match b.op {
                        B::Add => Op::Add,
                        B::Sub => Op::Sub,
                        B::Mul => Op::Mul,
                    })
                }
                AlgebraicExpression::UnaryOperation(u) => {
                    go(&u.expr, ix, o)?;
                    match u.op {
                        U::Minus => o.push(Op::Neg),
                    }
                }
            }
            Some(())
        }
        let mut ops = vec![];
        go(e, ix, &mut ops)?;
        let vars: BTreeSet<usize> = ops.iter().filter_map(|o| if let Op::V(v) = o { Some(*v) } else { None }).collect();
        Some(Ex { ops, vars: vars.into_iter().collect() })
    }
    /// The column, if the expression is just one.
    pub fn single(&self) -> Option<usize> {
        match self.ops[..] {
            [Op::V(v)] => Some(v),
            _ => None,
        }
    }
    pub fn eval(&self, row: &[u64]) -> u64 {
        let mut st = [0u64; 64];
        let mut n = 0;
        let mut big: Vec<u64>;
        // the stack depth is bounded by the expression depth; fall back to the heap for deep ones
        if self.ops.len() > 64 {
            big = Vec::with_capacity(self.ops.len());
            for o in &self.ops {
                match o {
                    Op::N(x) => big.push(*x),
                    Op::V(v) => big.push(row[*v]),
                    Op::Neg => {
                        let a = big.pop().unwrap();
                        big.push(neg(a));
                    }
                    _ => {
                        let b = big.pop().unwrap();
                        let a = big.pop().unwrap();
                        big.push(match o {
                            Op::Add => add(a, b),
                            Op::Sub => sub(a, b),
                            _ => mul(a, b),
                        });
                    }
                }
            }
            return big[0];
        }
        for o in &self.ops {
            match o {
                Op::N(x) => {
                    st[n] = *x;
                    n += 1;
                }
                Op::V(v) => {
                    st[n] = row[*v];
                    n += 1;
                }
                Op::Neg => st[n - 1] = neg(st[n - 1]),
                _ => {
                    n -= 1;
                    let (a, b) = (st[n - 1], st[n]);
                    st[n - 1] = match o {
                        Op::Add => add(a, b),
                        Op::Sub => sub(a, b),
                        _ => mul(a, b),
                    };
                }
            }
        }
        st[0]
    }
    /// The expression as a polynomial c0 + c1 x + c2 x^2 + c3 x^3 in column v.
    pub fn poly(&self, row: &mut [u64], v: usize) -> [u64; 4] {
        let keep = row[v];
        let mut y = [0u64; 4];
        for (x, yy) in y.iter_mut().enumerate() {
            row[v] = x as u64;
            *yy = self.eval(row);
        }
        row[v] = keep;
        // Newton forward differences -> coefficients
        let d1 = [sub(y[1], y[0]), sub(y[2], y[1]), sub(y[3], y[2])];
        let d2 = [sub(d1[1], d1[0]), sub(d1[2], d1[1])];
        let d3 = sub(d2[1], d2[0]);
        let (i2, i6) = (inv(2), inv(6));
        let (a1, a2, a3) = (d1[0], mul(d2[0], i2), mul(d3, i6));
        // y = y0 + a1 x + a2 x(x-1) + a3 x(x-1)(x-2)
        [y[0], add(sub(a1, a2), mul(2, a3)), sub(a2, mul(3, a3)), a3]
    }
    pub fn degree(&self) -> usize {
        let mut st: Vec<usize> = vec![];
        for o in &self.ops {
            match o {
                Op::N(_) => st.push(0),
                Op::V(_) => st.push(1),
                Op::Neg => {}
                Op::Mul => {
                    let b = st.pop().unwrap();
                    let a = st.pop().unwrap();
                    st.push(a + b);
                }
                _ => {
                    let b = st.pop().unwrap();
                    let a = st.pop().unwrap();
                    st.push(a.max(b));
                }
            }
        }
        st[0]
    }
}

pub enum Der {
    Const(u64),
    Quot(Ex, Ex),
}
pub struct Bus {
    pub id: u64,
    pub mult: Ex,
    pub args: Vec<Ex>,
}
pub struct Mach {
    pub ids: Vec<u64>,
    pub names: Vec<String>,
    pub ix: BTreeMap<u64, usize>,
    pub cons: Vec<Ex>,
    pub bus: Vec<Bus>,
    pub derived: Vec<(usize, Der)>,
}
pub type Net = BTreeMap<(u64, Vec<u64>), u64>;
pub const EXEC: u64 = 0;
pub const MEM: u64 = 1;
pub const PC: u64 = 2;
pub const VRANGE: u64 = 3;
pub const BITWISE: u64 = 6;
pub const TUPLE: u64 = 7;

/// Does the fixed table of `bus` contain the tuple?
pub fn in_table(bus: u64, a: &[u64]) -> bool {
    match bus {
        VRANGE => a[1] <= 25 && a[0] < 1 << a[1],
        BITWISE => a[0] < 256 && a[1] < 256 && ((a[3] == 0 && a[2] == 0) || (a[3] == 1 && a[2] == a[0] ^ a[1])),
        TUPLE => a[0] < 256 && a[1] < 2048,
        _ => false,
    }
}

/// the columns of a machine: what its constraints and bus interactions refer to
pub fn columns_of(m: &SymbolicMachine<F>) -> BTreeMap<u64, String> {
    let mut names = BTreeMap::new();
    fn walk(e: &AlgebraicExpression<F>, n: &mut BTreeMap<u64, String>) {
        match e {
            AlgebraicExpression::Number(_) => {}
            AlgebraicExpression::Reference(r) => {
                n.insert(r.id, r.name.to_string());
            }
            AlgebraicExpression::BinaryOperation(b) => {
                walk(&b.left, n);
                walk(&b.right, n);
            }
            AlgebraicExpression::UnaryOperation(u) => walk(&u.expr, n),
        }
    }
    for c in &m.constraints {
        walk(&c.expr, &mut names);
    }
    for b in &m.bus_interactions {
        walk(&b.mult, &mut names);
        b.args.iter().for_each(|a| walk(a, &mut names));
    }
    names
}

impl Mach {
    pub fn new(m: &SymbolicMachine<F>) -> Result<Mach, String> {
        // column order as the trace writer uses it
        let names = columns_of(m);
        let ids: Vec<u64> = names.keys().copied().collect();
        let ix: BTreeMap<u64, usize> = ids.iter().enumerate().map(|(i, id)| (*id, i)).collect();
        let ex = |e: &AlgebraicExpression<F>| Ex::build(e, &ix).ok_or_else(|| format!("expression {e} uses a column that is not a column of the machine"));
        let mut derived = vec![];
        for d in &m.derived_columns {
            let Some(c) = ix.get(&d.variable.id) else {
                return Err(format!("derived column {} is not a column of the machine", d.variable));
            };
            derived.push((
                *c,
                match &d.computation_method {
                    ComputationMethod::Constant(c) => Der::Const(num(c)),
                    ComputationMethod::QuotientOrZero(a, b) => Der::Quot(ex(a)?, ex(b)?),
                },
            ));
        }
        Ok(Mach {
            cons: m.constraints.iter().map(|c| ex(&c.expr)).collect::<Result<_, _>>()?,
            bus: m
                .bus_interactions
                .iter()
                .map(|b| Ok(Bus { id: b.id, mult: ex(&b.mult)?, args: b.args.iter().map(&ex).collect::<Result<_, String>>()? }))
                .collect::<Result<_, String>>()?,
            names: names.into_values().collect(),
            ids,
            ix,
            derived,
        })
    }
    pub fn derive(&self, row: &mut [u64]) {
        for (c, d) in &self.derived {
            row[*c] = match d {
                Der::Const(v) => *v,
                Der::Quot(a, b) => {
                    let d = b.eval(row);
                    if d == 0 {
                        0
                    } else {
                        mul(a.eval(row), inv(d))
                    }
                }
            };
        }
    }
    /// Index of a violated constraint or lookup: Ok, or (item, description).
    pub fn check(&self, row: &[u64]) -> Result<(), String> {
        for (i, c) in self.cons.iter().enumerate() {
            let v = c.eval(row);
            if v != 0 {
                return Err(format!("constraint {i} = {v}, columns {}", self.show(&c.vars, row)));
            }
        }
        for (i, b) in self.bus.iter().enumerate() {
            if matches!(b.id, EXEC | MEM | PC) {
                continue;
            }
            let m = b.mult.eval(row);
            if m == 0 {
                continue;
            }
            let a: Vec<u64> = b.args.iter().map(|a| a.eval(row)).collect();
            if m != 1 || !in_table(b.id, &a) {
                return Err(format!("lookup {i} on bus {} multiplicity {m} has no row {a:?}", b.id));
            }
        }
        Ok(())
    }
    pub fn show(&self, vars: &[usize], row: &[u64]) -> String {
        vars.iter().map(|v| format!("{}={}", self.names[*v], row[*v])).collect::<Vec<_>>().join(" ")
    }
    /// Adds the net effect of a row on the stateful buses.
    pub fn net(&self, row: &[u64], out: &mut Net) {
        for b in &self.bus {
            if !matches!(b.id, EXEC | MEM) {
                continue;
            }
            let m = b.mult.eval(row);
            if m == 0 {
                continue;
            }
            let k = (b.id, b.args.iter().map(|a| a.eval(row)).collect::<Vec<_>>());
            let e = out.entry(k.clone()).or_insert(0);
            *e = add(*e, m);
            if *e == 0 {
                out.remove(&k);
            }
        }
    }
}
pub fn show_net(n: &Net) -> String {
    n.iter().map(|((b, a), m)| format!("{}{}{a:?}", if *m == P - 1 { "-".into() } else if *m == 1 { "+".into() } else { format!("{m}*") }, if *b == EXEC { "exec" } else { "mem" })).collect::<Vec<_>>().join(" ")
}
