//! Parser of the AIR listing.
use powdr_autoprecompiles::expression::{AlgebraicExpression, AlgebraicReference};
use powdr_autoprecompiles::symbolic_machine::{SymbolicBusInteraction, SymbolicMachine};
use powdr_number::BabyBearField as F;
use std::collections::BTreeMap;
use std::sync::{Arc, OnceLock};

pub struct Air {
    pub name: &'static str,
    pub cols: Vec<String>,
    pub ix: BTreeMap<String, usize>,
    pub machine: SymbolicMachine<F>,
}
pub const ALU: usize = 0;
pub const LT: usize = 1;
pub const SHIFT: usize = 2;
pub const BEQ: usize = 3;
pub const BLT: usize = 4;
pub const JALLUI: usize = 5;
pub const JALR: usize = 6;
pub const LSX: usize = 7;
pub const LS: usize = 8;
pub const DIVREM: usize = 9;
pub const MULH: usize = 10;
pub const MUL: usize = 11;
pub const AUIPC: usize = 12;
pub const NAMES: [&str; 13] = ["alu", "lt", "shift", "beq", "blt", "jallui", "jalr", "lsx", "ls", "divrem", "mulh", "mul", "auipc"];

type E = AlgebraicExpression<F>;
struct Ps<'a> {
    t: Vec<&'a str>,
    i: usize,
    ix: &'a BTreeMap<String, usize>,
}
fn tokens(s: &str) -> Vec<&str> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i] as char;
        if c.is_whitespace() {
            i += 1;
        } else if c.is_alphanumeric() || c == '_' {
            let st = i;
            while i < b.len() && ((b[i] as char).is_alphanumeric() || b[i] == b'_') {
                i += 1;
            }
            v.push(&s[st..i]);
        } else {
            v.push(&s[i..i + 1]);
            i += 1;
        }
    }
    v
}
impl Ps<'_> {
    fn peek(&self) -> &str {
        self.t.get(self.i).copied().unwrap_or("")
    }
    fn expr(&mut self) -> E {
        let mut l = self.term();
        loop {
            match self.peek() {
                "+" => {
                    self.i += 1;
                    l = l + self.term();
                }
                "-" => {
                    self.i += 1;
                    l = l - self.term();
                }
                _ => return l,
            }
        }
    }
    fn term(&mut self) -> E {
        let mut l = self.atom();
        while self.peek() == "*" {
            self.i += 1;
            l = l * self.atom();
        }
        l
    }
    fn atom(&mut self) -> E {
        let t = self.t[self.i].to_string();
        self.i += 1;
        match t.as_str() {
            "(" => {
                let e = self.expr();
                assert_eq!(self.peek(), ")");
                self.i += 1;
                e
            }
            "-" => -self.atom(),
            t if t.as_bytes()[0].is_ascii_digit() => E::Number(F::from(t.parse::<u64>().unwrap())),
            t => {
                let id = *self.ix.get(t).unwrap_or_else(|| panic!("column {t}"));
                E::Reference(AlgebraicReference { name: Arc::new(t.to_string()), id: id as u64 })
            }
        }
    }
}
fn parse(s: &str, ix: &BTreeMap<String, usize>) -> E {
    let mut p = Ps { t: tokens(s), i: 0, ix };
    let e = p.expr();
    assert_eq!(p.i, p.t.len(), "{s}");
    e
}
/// Splits at top-level commas.
fn split(s: &str) -> Vec<&str> {
    let mut v = vec![];
    let (mut d, mut st) = (0, 0);
    for (i, c) in s.char_indices() {
        match c {
            '(' => d += 1,
            ')' => d -= 1,
            ',' if d == 0 => {
                v.push(&s[st..i]);
                st = i + 1;
            }
            _ => {}
        }
    }
    v.push(&s[st..]);
    v
}

/// Parses one AIR: a title line, columns, bus interactions and constraints.
pub fn parse_air(part: &str) -> (Vec<String>, SymbolicMachine<F>) {
    let mut cols: Vec<String> = vec![];
    let mut ix = BTreeMap::new();
    let (mut bi, mut cs) = (vec![], vec![]);
    let mut bus = 0u64;
    for l in part.lines().skip(1) {
        if let Some(c) = l.strip_prefix("  ") {
            ix.insert(c.to_string(), cols.len());
            cols.push(c.to_string());
        } else if let Some(r) = l.strip_prefix("// Bus ") {
            bus = r.split(' ').next().unwrap().parse().unwrap();
        } else if let Some(r) = l.strip_prefix("mult=") {
            let (m, a) = r.split_once(", args=[").unwrap();
            let a = a.strip_suffix(']').unwrap();
            bi.push(SymbolicBusInteraction { id: bus, mult: parse(m, &ix), args: split(a).into_iter().map(|e| parse(e, &ix)).collect() });
        } else if let Some(e) = l.strip_suffix(" = 0") {
            cs.push(parse(e, &ix).into());
        }
    }
    (cols, SymbolicMachine { constraints: cs, bus_interactions: bi, derived_columns: vec![] })
}
fn load() -> Vec<Air> {
    let text = include_str!("../../data/openvm_constraints.txt");
    let mut airs = vec![];
    for part in text.split("\n# ").map(|p| p.strip_prefix("# ").unwrap_or(p)) {
        if part.trim().is_empty() {
            continue;
        }
        let (cols, machine) = parse_air(part);
        let ix = cols.iter().cloned().enumerate().map(|(i, c)| (c, i)).collect();
        airs.push(Air { name: NAMES[airs.len()], cols, ix, machine });
    }
    assert_eq!(airs.len(), 13);
    airs
}
pub fn airs() -> &'static [Air] {
    static A: OnceLock<Vec<Air>> = OnceLock::new();
    A.get_or_init(load)
}
