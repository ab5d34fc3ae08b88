//! A Byzantine prover: changes cells of a row and repairs the rest until the
//! verifier accepts it again, if it can.
use super::mach::*;
use super::*;
use std::collections::BTreeSet;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
}
/// Square root mod P, if there is one.
pub fn sqrt(a: u64) -> Option<u64> {
    if a == 0 {
        return Some(0);
    }
    if pow(a, (P - 1) / 2) != 1 {
        return None;
    }
    // P - 1 = 15 * 2^27; 31 generates the group
    let (q, mut m) = (15u64, 27u32);
    let mut c = pow(31, q);
    let mut t = pow(a, q);
    let mut r = pow(a, q.div_ceil(2));
    while t != 1 {
        let mut i = 0;
        let mut x = t;
        while x != 1 {
            x = mul(x, x);
            i += 1;
        }
        let mut b = c;
        for _ in 0..m - i - 1 {
            b = mul(b, b);
        }
        m = i;
        c = mul(b, b);
        t = mul(t, c);
        r = mul(r, b);
    }
    Some(r)
}
fn roots(c: [u64; 4]) -> Vec<u64> {
    let f = |x: u64| add(c[0], mul(x, add(c[1], mul(x, add(c[2], mul(x, c[3]))))));
    if c[3] != 0 {
        return [0, 1, 2, 3, P - 1, 255, 256].into_iter().filter(|x| f(*x) == 0).collect();
    }
    if c[2] != 0 {
        let d = sub(mul(c[1], c[1]), mul(4, mul(c[0], c[2])));
        return match sqrt(d) {
            None => vec![],
            Some(s) => {
                let i = inv(mul(2, c[2]));
                let mut v = vec![mul(sub(s, c[1]), i), mul(sub(neg(s), c[1]), i)];
                v.dedup();
                v
            }
        };
    }
    if c[1] != 0 {
        return vec![mul(neg(c[0]), inv(c[1]))];
    }
    vec![]
}
pub struct Adv<'a> {
    pub m: &'a Mach,
    by_var: Vec<Vec<usize>>,
    /// columns that hold a limb of a memory word (1) or the time of an access (2)
    role: Vec<u8>,
}
impl<'a> Adv<'a> {
    pub fn new(m: &'a Mach) -> Self {
        let mut by_var = vec![vec![]; m.ids.len()];
        for (i, c) in m.cons.iter().enumerate() {
            for v in &c.vars {
                by_var[*v].push(i);
            }
        }
        for (j, b) in m.bus.iter().enumerate() {
            if matches!(b.id, EXEC | MEM) {
                continue;
            }
            let vs: BTreeSet<usize> = b.mult.vars.iter().chain(b.args.iter().flat_map(|a| a.vars.iter())).copied().collect();
            for v in vs {
                by_var[v].push(m.cons.len() + j);
            }
        }
        let mut role = vec![0u8; m.ids.len()];
        for b in m.bus.iter().filter(|b| b.id == MEM) {
            for (k, a) in b.args.iter().enumerate().skip(2) {
                if let Some(v) = a.single() {
                    role[v] = if k == 6 { 2 } else { 1 };
                }
            }
        }
        Adv { m, by_var, role }
    }
    fn bad(&self, row: &[u64], item: usize) -> bool {
        match self.m.cons.get(item) {
            Some(c) => c.eval(row) != 0,
            None => {
                let b = &self.m.bus[item - self.m.cons.len()];
                let mu = b.mult.eval(row);
                if mu == 0 || b.id == PC {
                    return false;
                }
                let a: Vec<u64> = b.args.iter().map(|a| a.eval(row)).collect();
                mu != 1 || !in_table(b.id, &a)
            }
        }
    }
    fn set(&self, row: &mut [u64], v: usize, x: u64, bad: &mut BTreeSet<usize>) {
        row[v] = x;
        for i in &self.by_var[v] {
            if self.bad(row, *i) {
                bad.insert(*i);
            } else {
                bad.remove(i);
            }
        }
    }
    /// One attempt from an accepted row. `is_valid`: column never touched unless drawn.
    pub fn attempt(&self, row0: &[u64], r: &mut Rng) -> Option<Vec<u64>> {
        let n = self.m.ids.len();
        let mut row = row0.to_vec();
        let mut bad = BTreeSet::new();
        let mut until = vec![0u32; n];
        let valid = self.m.names.iter().position(|n| n == "is_valid");
        if let (Some(v), true) = (valid, r.below(16) > 0) {
            until[v] = u32::MAX;
        }
        let tampers = 1 + (r.below(4) == 0) as usize;
        for _ in 0..tampers {
            let mut v = r.below(n);
            for _ in 0..8 {
                if until[v] == u32::MAX {
                    v = r.below(n);
                }
            }
            let cur = row[v];
            let mut x = cur;
            if r.below(5) < 2 {
                // another root of a constraint that holds
                let cs: Vec<usize> = self.by_var[v].iter().copied().filter(|i| *i < self.m.cons.len()).collect();
                if !cs.is_empty() {
                    let p = self.m.cons[r.pick(&cs)].poly(&mut row, v);
                    let rs: Vec<u64> = roots(p).into_iter().filter(|y| *y != cur).collect();
                    if !rs.is_empty() {
                        x = r.pick(&rs);
                    }
                }
            }
            if x == cur && self.role[v] == 1 && r.below(8) > 0 {
                x = match r.below(4) {
                    0 => r.below(4) as u64,
                    1 => (cur ^ (1 << r.below(8))) & 0xff,
                    2 => row[r.below(n)] & 0xff,
                    _ => r.below(256) as u64,
                };
            } else if x == cur && self.role[v] == 2 && r.below(8) > 0 {
                x = match r.below(4) {
                    0 => add(cur, 1),
                    1 => sub(cur, cur.min(1)),
                    2 => row[r.below(n)],
                    _ => r.next() % (1 << 20),
                };
            } else if x == cur {
                x = match r.below(12) {
                    0 => 0,
                    1 => 1,
                    2 => add(cur, 1),
                    3 => sub(cur, 1),
                    4 => add(cur, 256),
                    5 => sub(cur, 256),
                    6 => r.below(256) as u64,
                    7 => r.next() % P,
                    8 => row[r.below(n)],
                    9 => add(cur, 1 << r.below(30)),
                    10 => sub(1, cur),
                    _ => neg(cur),
                };
            }
            if x == cur {
                continue;
            }
            self.set(&mut row, v, x, &mut bad);
            until[v] = u32::MAX;
        }
        if bad.is_empty() {
            return (row != row0).then_some(row);
        }
        self.mend(row, bad, until, r).filter(|x| x != row0)
    }
    /// Repairs `row0` without touching column `fixed`.
    pub fn repair(&self, row0: &[u64], fixed: usize, r: &mut Rng) -> Option<Vec<u64>> {
        let mut row = row0.to_vec();
        let mut until = vec![0u32; row.len()];
        until[fixed] = u32::MAX;
        for _ in 0..1 + r.below(3) {
            let v = r.below(row.len());
            if v != fixed {
                row[v] = match r.below(4) {
                    0 => 0,
                    1 => 1,
                    2 => r.next() % P,
                    _ => neg(1),
                };
                until[v] = u32::MAX;
            }
        }
        let bad: BTreeSet<usize> = (0..self.m.cons.len() + self.m.bus.len()).filter(|i| (*i < self.m.cons.len() || !matches!(self.m.bus[*i - self.m.cons.len()].id, EXEC | MEM)) && self.bad(&row, *i)).collect();
        self.mend(row, bad, until, r)
    }
    fn mend(&self, mut row: Vec<u64>, mut bad: BTreeSet<usize>, mut until: Vec<u32>, r: &mut Rng) -> Option<Vec<u64>> {
        let n = row.len();
        let limit = 24 + 3 * n as u32;
        for t in 1..limit.min(160) {
            if bad.is_empty() {
                return Some(row);
            }
            let k = r.below(bad.len());
            let item = *bad.iter().nth(k).unwrap();
            let mut done = false;
            if item < self.m.cons.len() {
                let c = &self.m.cons[item];
                let free: Vec<usize> = c.vars.iter().copied().filter(|v| until[*v] < t).collect();
                if free.is_empty() {
                    return None;
                }
                for _ in 0..4 {
                    let v = r.pick(&free);
                    let p = c.poly(&mut row, v);
                    let rs: Vec<u64> = roots(p).into_iter().filter(|y| *y != row[v]).collect();
                    if !rs.is_empty() {
                        let x = r.pick(&rs);
                        self.set(&mut row, v, x, &mut bad);
                        until[v] = t + 2 + r.below(6) as u32;
                        done = true;
                        break;
                    }
                }
            } else {
                let b = &self.m.bus[item - self.m.cons.len()];
                let mu = b.mult.eval(&row);
                let a: Vec<u64> = b.args.iter().map(|a| a.eval(&row)).collect();
                for _ in 0..4 {
                    let (e, target) = if mu != 1 || r.below(12) == 0 {
                        (&b.mult, r.below(2) as u64)
                    } else {
                        let small = |r: &mut Rng, n: u64| if r.below(2) == 0 { r.next() % n } else { r.next() % n.min(4) };
                        match b.id {
                            VRANGE => {
                                if a[1] > 25 {
                                    (&b.args[1], r.below(26) as u64)
                                } else {
                                    (&b.args[0], small(r, 1 << a[1]))
                                }
                            }
                            TUPLE => {
                                if a[0] >= 256 {
                                    (&b.args[0], small(r, 256))
                                } else {
                                    (&b.args[1], small(r, 2048))
                                }
                            }
                            _ => {
                                if a[0] >= 256 {
                                    (&b.args[0], small(r, 256))
                                } else if a[1] >= 256 {
                                    (&b.args[1], small(r, 256))
                                } else if a[3] == 1 {
                                    match r.below(3) {
                                        0 if a[1] ^ (a[2] & 0xff) < 256 && a[2] < 256 => (&b.args[0], a[1] ^ a[2]),
                                        1 if a[2] < 256 => (&b.args[1], a[0] ^ a[2]),
                                        _ => (&b.args[2], a[0] ^ a[1]),
                                    }
                                } else if a[3] == 0 {
                                    (&b.args[2], 0)
                                } else {
                                    (&b.args[3], r.below(2) as u64)
                                }
                            }
                        }
                    };
                    let free: Vec<usize> = e.vars.iter().copied().filter(|v| until[*v] < t).collect();
                    if free.is_empty() {
                        continue;
                    }
                    let v = r.pick(&free);
                    let mut p = e.poly(&mut row, v);
                    p[0] = sub(p[0], target);
                    let rs = roots(p);
                    if !rs.is_empty() {
                        let x = r.pick(&rs);
                        self.set(&mut row, v, x, &mut bad);
                        until[v] = t + 2 + r.below(6) as u32;
                        done = true;
                        break;
                    }
                }
            }
            if !done && r.below(4) == 0 {
                return None;
            }
        }
        None
    }
}
