//! The simulated zkVM: instruction AIRs (the text of OpenVM's RV32IM AIRs kept in the
//! repository), an executor that fills their rows, bus semantics, and a row verifier.
pub mod adapter;
pub mod adv;
pub mod air;
pub mod gen;
pub mod isa;
pub mod mach;
pub mod synth;
pub mod synvm;
pub mod tiny;
pub mod walk;

pub const P: u64 = 2013265921;
pub fn add(a: u64, b: u64) -> u64 {
    let s = a + b;
    if s >= P {
        s - P
    } else {
        s
    }
}
pub fn sub(a: u64, b: u64) -> u64 {
    if a >= b {
        a - b
    } else {
        a + P - b
    }
}
pub fn mul(a: u64, b: u64) -> u64 {
    a * b % P
}
pub fn neg(a: u64) -> u64 {
    sub(0, a)
}
pub fn pow(mut a: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = mul(r, a);
        }
        a = mul(a, a);
        e >>= 1;
    }
    r
}
pub fn inv(a: u64) -> u64 {
    assert!(a != 0);
    pow(a, P - 2)
}
