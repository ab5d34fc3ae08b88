use crate::driver::*;
use crate::gen::*;
use crate::seams::{fs_arm, fs_disarm, FsFault};
use powdr_autoprecompiles::expression::{AlgebraicExpression, AlgebraicReference};
use powdr_autoprecompiles::symbolic_machine::{SymbolicBusInteraction, SymbolicConstraint, SymbolicMachine};
use powdr_constraint_solver::constraint_system::{ComputationMethod, DerivedVariable};
use powdr_number::{read_polys_csv_file, write_polys_csv_file, BabyBearField, BigUint, Bn254Field, CsvRenderMode, FieldElement, GoldilocksField, KoalaBearField, LargeInt, Mersenne31Field, ReadWrite};
use rayon_core::sim;
use serde::{de::DeserializeOwned, Serialize};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::io::{self, Read, Write};
use std::path::Path;
use std::sync::Arc;

pub static PROP: Prop = Prop {
    id: "P12",
    run,
    quick_runs: 60_000,
    warm: 16,
    thorough_runs: 1_500_000,
    quick_cap_s: 45,
    rule: "runs in which a fault struck the storing or the reading; counted once per (format, field, kind of value, faults, operation struck, outcome)",
    real: "number's serialize (CSV writer and reader, CBOR ReadWrite, buffered_write_file) and the five fields' text and serde forms, autoprecompiles' SymbolicMachine and expression serde forms; std's file and buffered I/O, csv and serde_cbor",
    stub: "the streams handed to the CSV functions, the file system's system calls below a scratch directory (fault injection in front of the real ones)",
    assumptions: &["a CSV file cut off by someone else is not claimed to be recognised (the format carries no length)", "values changed on the medium are not claimed to be recognised"],
};

/// A stream that delivers or accepts a drawn number of bytes per call, may be
/// interrupted and fails for good at call `fail_at`.
struct Stream {
    data: Vec<u8>,
    pos: usize,
    chunk: usize,
    eintr_every: u64,
    fail_at: Option<u64>,
    calls: u64,
    failed: bool,
    interrupted: bool,
    flushed: bool,
    sticky: bool,
}
#[derive(Clone, Copy, Debug)]
struct Faults {
    chunk: usize,
    eintr_every: u64,
    fail_at: Option<u64>,
}
impl Faults {
    fn draw(max_call: usize) -> Faults {
        Faults {
            chunk: pick(&[usize::MAX, usize::MAX, 1, 2, 3, 7, 64, 1000]),
            eintr_every: pick(&[0u64, 0, 0, 2, 3, 5]),
            fail_at: chance(1, 3).then(|| below(max_call.max(1)) as u64),
        }
    }
}
impl Stream {
    fn new(data: Vec<u8>, f: Faults) -> Stream {
        Stream { data, pos: 0, chunk: f.chunk, eintr_every: f.eintr_every, fail_at: f.fail_at, calls: 0, failed: false, interrupted: false, flushed: false, sticky: true }
    }
    fn call(&mut self) -> io::Result<()> {
        let c = self.calls;
        self.calls += 1;
        sim::yield_point("stream");
        if self.fail_at == Some(c) || self.failed && self.sticky {
            if !self.failed {
                sim::count("fault.stream_error");
            }
            self.failed = true;
            return Err(io::Error::other("stream broken"));
        }
        if self.eintr_every > 0 && c % self.eintr_every == self.eintr_every - 1 {
            sim::count("fault.stream_eintr");
            self.interrupted = true;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        Ok(())
    }
}
impl Read for &mut Stream {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.call()?;
        let mut n = b.len().min(self.data.len() - self.pos);
        if n > self.chunk {
            sim::count("fault.short_read");
            n = self.chunk;
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Write for &mut Stream {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.call()?;
        let mut n = b.len();
        if n > self.chunk {
            sim::count("fault.short_write");
            n = self.chunk;
        }
        self.data.extend_from_slice(&b[..n]);
        self.flushed = false;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.failed && self.sticky {
            return Err(io::Error::other("stream broken"));
        }
        self.flushed = true;
        Ok(())
    }
}

fn name() -> String {
    let mut s = String::new();
    for _ in 0..below(4) {
        s.push_str(pick(&["a", "b_0", "main::x", "@", "@7", ",", "\"", "\n", "\r\n", " ", "é", "\u{1F980}", "\\", "0x", "-", "Row", "[1]", "'"]));
    }
    if s == "Row" {
        s.push('_');
    }
    s
}
fn value<T: FieldElement>() -> T {
    let m = T::modulus().to_arbitrary_integer();
    match below(7) {
        0 => T::from(below(3) as u64),
        1 => -T::from(below(300) as u64),
        2 => T::from(BigUint::from(pick(&[255u64, 256, 65535, 65536, 1 << 30, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX])) % m),
        3 => {
            // around the middle of the field
            let h: BigUint = (m.clone() - 1u32) / 2u32;
            T::from(h) + T::from(below(3) as u64) - T::one()
        }
        4 => T::from((BigUint::from(1u32) << below(m.bit_len())) % m),
        _ => {
            let mut x = BigUint::from(0u32);
            for _ in 0..5 {
                x = (x << 60) + BigUint::from(sim::choose(1 << 60));
            }
            T::from(x % m)
        }
    }
}
fn columns<T: FieldElement>(most: usize) -> Vec<(String, Vec<T>)> {
    let n = range(1, 4);
    let l = if chance(1, 12) { most * 20 } else { below(most) };
    (0..n).map(|_| (name(), (0..if chance(2, 3) { l } else { below(l + 1) }).map(|_| value()).collect())).collect()
}

/// What happened to one value that was stored and read back.
struct Story {
    faulty: bool,
    sig: u64,
    text: String,
}

fn csv<T: FieldElement>(field: &str) -> Result<Story, Violation> {
    let cols = columns::<T>(30);
    let mode = pick(&[CsvRenderMode::SignedBase10, CsvRenderMode::UnsignedBase10, CsvRenderMode::Hex]);
    let env = plain_env(sim::choose(1 << 40));
    let store = |f: Faults| {
        let mut s = Stream::new(vec![], f);
        let refs: Vec<(&String, &[T])> = cols.iter().map(|(n, v)| (n, v.as_slice())).collect();
        let (sr, rr) = (&mut s, &refs);
        let r = under(env, move || write_polys_csv_file(sr, mode, rr));
        (r, s)
    };
    let none = Faults { chunk: usize::MAX, eintr_every: 0, fail_at: None };
    let (r, s) = store(none);
    if let Err(m) = r {
        return bad("panic", format!("{field} {mode:?}: storing {cols:?} failed: {m}"));
    }
    let text = s.data;
    let wf = Faults::draw(if chance(1, 2) { 3 } else { text.len() });
    let (r, s) = store(wf);
    let wrote = r.is_ok();
    let mut faulty = s.failed || s.interrupted || wf.chunk < text.len();
    match r {
        Ok(()) => {
            if s.data != text {
                return bad("silent-loss", format!("{field} {mode:?} {wf:?}: reported success after {} of {} bytes", s.data.len(), text.len()));
            }
            if !s.flushed {
                return bad("not-flushed", format!("{field} {mode:?} {wf:?}: reported success without flushing"));
            }
        }
        Err(m) => {
            if !s.failed && !s.interrupted {
                return bad("soft-fault-fatal", format!("{field} {mode:?} {wf:?}: {m}"));
            }
            sim::count("probe.failure_reported");
        }
    }
    let rf = Faults::draw(if chance(1, 2) { 3 } else { text.len() });
    let mut s = Stream::new(text.clone(), rf);
    let sr = &mut s;
    let r = under(env, move || read_polys_csv_file::<T>(sr));
    faulty |= s.failed || s.interrupted || rf.chunk < text.len();
    let read = r.is_ok();
    match r {
        Ok(got) => {
            if got != cols {
                return bad("wrong-values", format!("{field} {mode:?} {rf:?}: stored {cols:?}, read {got:?}\n{}", String::from_utf8_lossy(&text)));
            }
        }
        Err(m) => {
            if !s.failed && !s.interrupted {
                return bad("soft-fault-fatal", format!("{field} {mode:?} {rf:?}: reading {cols:?} failed: {m}"));
            }
            sim::count("probe.failure_reported");
        }
    }
    let cl = |f: Faults| (f.chunk, f.eintr_every, f.fail_at.map(|x| x.min(20)));
    Ok(Story {
        faulty,
        sig: hash(&("csv", field, format!("{mode:?}"), cl(wf), cl(rf), wrote, read, cols.len())),
        text: format!("CSV {field} {mode:?}: {} columns, {} bytes, storing {wf:?} {}, reading {rf:?} {}", cols.len(), text.len(), ok(wrote), ok(read)),
    })
}
fn ok(b: bool) -> &'static str {
    if b {
        "succeeded"
    } else {
        "failed visibly"
    }
}
fn bad<T>(class: &'static str, text: String) -> Result<T, Violation> {
    violation(class, text)
}

fn cbor<V: Serialize + DeserializeOwned + Send + Sync>(what: &str, v: V, same: impl Fn(&V, &V) -> bool, show: impl Fn(&V) -> String, dir: &Path) -> Result<Story, Violation> {
    let env = plain_env(sim::choose(1 << 40));
    sim::muted(|| {
        let _ = std::fs::remove_dir_all(dir);
        std::fs::create_dir_all(dir).unwrap();
    });
    let (pa, pb) = (dir.join("a.cbor"), dir.join("b.cbor"));
    let store = |p: &Path| {
        let vr = &v;
        under(env, move || vr.write(p).map_err(|e| e.to_string()))
    };
    fs_arm(dir.to_str().unwrap(), FsFault::None, 0, 0, 0);
    let r = store(&pa);
    let ops = fs_disarm().ops;
    if !matches!(r, Ok(Ok(()))) {
        return bad("panic", format!("{what}: storing without faults: {r:?}"));
    }
    let good = sim::muted(|| std::fs::read(&pa).unwrap());
    if chance(1, 3) {
        sim::count("fault.stale_files");
        let n = below(300);
        sim::muted(|| std::fs::write(&pb, good.iter().copied().chain(std::iter::repeat_n(0xf6, n)).collect::<Vec<_>>()).unwrap());
    }
    let fault = match below(8) {
        0 | 1 => FsFault::None,
        2 => FsFault::Eintr,
        3 => FsFault::Short,
        4 => FsFault::Errno(pick(&[libc::EIO, libc::ENOSPC, libc::EACCES])),
        5 => FsFault::Full,
        6 => FsFault::Outage(pick(&[libc::EIO, libc::ENOSPC]), range(2, 5) as u64),
        _ => FsFault::Crash,
    };
    let at = below(ops.max(1) as usize) as u64;
    let (se, ee) = (pick(&[0u64, 2, 3]), pick(&[0u64, 3, 5]));
    fs_arm(dir.to_str().unwrap(), fault, at, se, ee);
    let r = store(&pb);
    let rep = fs_disarm();
    let hard = matches!(fault, FsFault::Errno(_) | FsFault::Outage(..) | FsFault::Full | FsFault::Crash) && rep.fired;
    let how = format!("{what}, {fault:?} at operation {at} of {:?}, short writes every {se}, interruptions every {ee}", rep.log);
    let wrote = matches!(r, Ok(Ok(())));
    let disk = sim::muted(|| std::fs::read(&pb).unwrap_or_default());
    match r {
        Ok(Ok(())) => {
            if disk != good {
                return bad("silent-loss", format!("{how}: reported success with {} of {} bytes", disk.len(), good.len()));
            }
        }
        Ok(Err(m)) | Err(m) => {
            if !hard {
                return bad("soft-fault-fatal", format!("{how}: {m}"));
            }
            sim::count("probe.failure_reported");
        }
    }
    // what is on the disk now, or what an interrupted copy of it left
    let mut bytes = disk;
    if wrote && chance(1, 3) {
        sim::count("fault.truncated_file");
        bytes.truncate(below(good.len()));
    }
    let whole = bytes == good;
    let len = bytes.len();
    let rf = Faults::draw(if chance(1, 2) { 4 } else { good.len() });
    let mut s = Stream::new(bytes, rf);
    let mut sr = &mut s;
    let r = under(env, move || V::read(&mut sr));
    let read = r.is_ok();
    match r {
        Ok(got) => {
            if !same(&got, &v) {
                return bad("wrong-values", format!("{how}; reading {len} of {} bytes {rf:?}: stored {}, read {}", good.len(), show(&v), show(&got)));
            }
        }
        Err(m) => {
            if whole && !s.failed && !s.interrupted {
                return bad("soft-fault-fatal", format!("{how}; reading {rf:?} failed: {m}"));
            }
            sim::count("probe.failure_reported");
        }
    }
    // storing again in the same place completes
    if !wrote {
        let r = store(&pb);
        let disk = sim::muted(|| std::fs::read(&pb).unwrap_or_default());
        if !matches!(r, Ok(Ok(()))) || disk != good {
            return bad("not-recovered", format!("{how}: the second, fault-free attempt: {r:?}, {} of {} bytes", disk.len(), good.len()));
        }
    }
    sim::muted(|| {
        let _ = std::fs::remove_dir_all(dir);
    });
    Ok(Story {
        faulty: rep.fired || s.failed || s.interrupted || !whole,
        sig: hash(&("cbor", what, format!("{fault:?}"), at, wrote, whole, read, rf.chunk, rf.eintr_every, rf.fail_at.map(|x| x.min(20)))),
        text: format!("{how} {}; reading {len} of {} bytes {rf:?} {}", ok(wrote), good.len(), ok(read)),
    })
}

fn refr() -> AlgebraicReference {
    AlgebraicReference { name: Arc::new(name()), id: pick(&[0u64, 1, 2, 3, 17, u32::MAX as u64, u64::MAX]) }
}
fn expr<T: FieldElement>(d: usize) -> AlgebraicExpression<T> {
    if d == 0 || chance(1, 4) {
        return if chance(1, 2) { AlgebraicExpression::Reference(refr()) } else { AlgebraicExpression::Number(value()) };
    }
    match below(4) {
        0 => expr(d - 1) + expr(d - 1),
        1 => expr(d - 1) - expr(d - 1),
        2 => expr(d - 1) * expr(d - 1),
        _ => -expr(d - 1),
    }
}
fn machine<T: FieldElement>() -> SymbolicMachine<T> {
    SymbolicMachine {
        constraints: (0..below(4)).map(|_| SymbolicConstraint { expr: expr(3) }).collect(),
        bus_interactions: (0..below(3)).map(|_| SymbolicBusInteraction { id: below(8) as u64, mult: expr(2), args: (0..below(4)).map(|_| expr(2)).collect() }).collect(),
        derived_columns: (0..below(3))
            .map(|_| {
                let m = if chance(1, 2) { ComputationMethod::Constant(value()) } else { ComputationMethod::QuotientOrZero(expr(2), expr(2)) };
                DerivedVariable { variable: refr(), computation_method: m }
            })
            .collect(),
    }
}

/// A machine as text that is the same exactly for the same machine (names and numbers included).
fn canon<T: FieldElement>(m: &SymbolicMachine<T>) -> String {
    fn r(r: &AlgebraicReference) -> String {
        format!("{:?}#{}", r.name, r.id)
    }
    fn e<T: FieldElement>(x: &AlgebraicExpression<T>) -> String {
        match x {
            AlgebraicExpression::Reference(x) => r(x),
            AlgebraicExpression::Number(n) => n.to_arbitrary_integer().to_string(),
            AlgebraicExpression::BinaryOperation(b) => format!("({} {:?} {})", e(&b.left), b.op, e(&b.right)),
            AlgebraicExpression::UnaryOperation(u) => format!("{:?}({})", u.op, e(&u.expr)),
        }
    }
    let c: Vec<String> = m.constraints.iter().map(|c| e(&c.expr)).collect();
    let b: Vec<String> = m.bus_interactions.iter().map(|b| format!("{} x {}: {:?}", b.id, e(&b.mult), b.args.iter().map(e).collect::<Vec<_>>())).collect();
    let d: Vec<String> = m
        .derived_columns
        .iter()
        .map(|d| {
            let v = match &d.computation_method {
                ComputationMethod::Constant(c) => c.to_arbitrary_integer().to_string(),
                ComputationMethod::QuotientOrZero(a, b) => format!("{} / {}", e(a), e(b)),
            };
            format!("{} = {v}", r(&d.variable))
        })
        .collect();
    format!("{c:?} {b:?} {d:?}")
}

fn one<T: FieldElement>(field: &str, dir: &Path) -> Result<Story, Violation> {
    fn dbg<V: Debug>(v: &V) -> String {
        format!("{v:?}")
    }
    match below(5) {
        0 | 1 => csv::<T>(field),
        2 => cbor(&format!("CBOR columns of {field}"), columns::<T>(40), |a, b| a == b, dbg, dir),
        3 => {
            let v: BTreeMap<String, (Option<T>, Vec<Vec<T>>)> = (0..below(5)).map(|_| (name(), (chance(1, 2).then(value), (0..below(3)).map(|_| (0..below(5)).map(|_| value()).collect()).collect()))).collect();
            cbor(&format!("CBOR tables of {field}"), v, |a, b| a == b, dbg, dir)
        }
        _ => cbor(&format!("CBOR machine over {field}"), machine::<T>(), |a, b| canon(a) == canon(b), canon, dir),
    }
}

fn run(cx: &Cx) -> Res {
    let dir = cx.scratch.join("p12");
    let st = match below(5) {
        0 => one::<BabyBearField>("BabyBear", &dir),
        1 => one::<KoalaBearField>("KoalaBear", &dir),
        2 => one::<Mersenne31Field>("Mersenne31", &dir),
        3 => one::<GoldilocksField>("Goldilocks", &dir),
        _ => one::<Bn254Field>("Bn254", &dir),
    }?;
    sim::event("story", st.sig);
    Ok(Outcome { nontrivial: st.faulty, signature: st.sig, sample: st.text })
}
