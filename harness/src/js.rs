//! JSON encoding of observations. A field element is an integer for toy fields, and a little-endian
//! sequence of base-4096 digits without trailing zeros otherwise.
use num::BigUint;
use plonky::{AffinePoint, Curve, Field, ProjectivePoint};
use serde_json::{json, Value};
use std::io::Write;

pub fn digits(n: &BigUint) -> Value {
    let mut out: Vec<u32> = Vec::new();
    let bytes = n.to_bytes_le();
    let mut acc: u32 = 0;
    let mut nb = 0;
    for b in bytes {
        acc |= (b as u32) << nb;
        nb += 8;
        if nb >= 12 {
            out.push(acc & 0xfff);
            acc >>= 12;
            nb -= 12;
        }
    }
    out.push(acc);
    while out.last() == Some(&0) {
        out.pop();
    }
    json!(out)
}

pub fn undigits(v: &Value) -> BigUint {
    let mut r = BigUint::from(0u32);
    for d in v.as_array().unwrap().iter().rev() {
        r = r * 4096u32 + d.as_u64().unwrap() as u32;
    }
    r
}

pub fn order<F: Field>() -> BigUint {
    big(F::NEG_ONE) + 1u32
}

pub fn is_big<F: Field>() -> bool {
    F::BITS > 14
}

/// The canonical value of a field element (not through plonky's BigUint conversions).
pub fn big<F: Field>(x: F) -> BigUint {
    let mut r = BigUint::from(0u32);
    for l in x.to_canonical_u64_vec().iter().rev() {
        r = (r << 64) + *l;
    }
    r
}

pub fn fe<F: Field>(x: F) -> Value {
    if is_big::<F>() {
        digits(&big(x))
    } else {
        json!(x.to_canonical_u64_vec()[0])
    }
}

pub fn fes<F: Field>(xs: &[F]) -> Value {
    Value::Array(xs.iter().map(|&x| fe(x)).collect())
}

pub fn fess<F: Field>(xs: &[Vec<F>]) -> Value {
    Value::Array(xs.iter().map(|x| fes(x)).collect())
}

pub fn field<F: Field>() -> Value {
    if is_big::<F>() {
        json!({"big": true, "p": digits(&order::<F>())})
    } else {
        json!({"big": false, "p": F::NEG_ONE.to_canonical_u64_vec()[0] + 1})
    }
}

pub fn from_big<F: Field>(n: &BigUint) -> F {
    let mut v = vec![];
    let mut n = n.clone();
    let m = BigUint::from(u64::MAX);
    let len = F::ZERO.to_canonical_u64_vec().len();
    for _ in 0..len {
        let d = (&n & &m).to_u64_digits();
        v.push(*d.get(0).unwrap_or(&0));
        n >>= 64;
    }
    F::from_canonical_u64_vec(v)
}

pub fn from_js<F: Field>(v: &Value) -> F {
    if v.is_array() {
        from_big(&undigits(v))
    } else {
        F::from_canonical_u64(v.as_u64().unwrap())
    }
}

/// An affine point: <<>> is infinity.
pub fn pt<C: Curve>(p: AffinePoint<C>) -> Value {
    if p.zero {
        json!([])
    } else {
        json!([fe(p.x), fe(p.y)])
    }
}

pub fn pts<C: Curve>(ps: &[AffinePoint<C>]) -> Value {
    Value::Array(ps.iter().map(|&p| pt(p)).collect())
}

/// The point a projective point represents, read off its coordinates without plonky's conversion.
pub fn ppt<C: Curve>(p: ProjectivePoint<C>) -> Value {
    if p.zero {
        json!([])
    } else {
        json!([fe(p.x), fe(p.y), fe(p.z)])
    }
}

pub fn curve<C: Curve>() -> Value {
    json!({"F": field::<C::BaseField>(), "A": fe(C::A), "B": fe(C::B), "S": field::<C::ScalarField>()})
}

pub struct Out(std::io::BufWriter<std::fs::File>, pub usize);

impl Out {
    pub fn new(path: &str) -> Self {
        Out(std::io::BufWriter::new(std::fs::File::create(path).expect("output file")), 0)
    }
    pub fn rec(&mut self, v: Value) {
        writeln!(self.0, "{}", v).unwrap();
        self.1 += 1;
    }
}

pub fn read_lines(path: &str) -> Vec<Value> {
    std::fs::read_to_string(path)
        .expect("input file")
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(l).expect("json"))
        .collect()
}

/// Run code under test; a panic is data.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}
