//! Points of small and real curves.
use crate::js::*;
use num::BigUint;
use plonky::*;
use rand::Rng;
use rand_chacha::ChaCha8Rng;
use serde_json::{json, Value};

/// All points of a toy curve, infinity first.
pub fn all_points<C: Curve>() -> Vec<AffinePoint<C>> {
    let p = order::<C::BaseField>().to_u64_digits()[0];
    let mut v = vec![AffinePoint::ZERO];
    for x in 0..p {
        for y in 0..p {
            let (x, y) = (C::BaseField::from_canonical_u64(x), C::BaseField::from_canonical_u64(y));
            if y * y == x * x * x + C::A * x + C::B {
                v.push(AffinePoint { x, y, zero: false });
            }
        }
    }
    v
}

/// The representative of a point with the given z.
pub fn rep<C: Curve>(p: AffinePoint<C>, z: C::BaseField) -> ProjectivePoint<C> {
    if p.zero {
        ProjectivePoint { x: p.x, y: p.y, z, zero: true }
    } else {
        ProjectivePoint { x: p.x * z, y: p.y * z, z, zero: false }
    }
}

/// Double-and-add with the affine formulas, independent of plonky's multiplication.
pub fn amul<C: Curve>(n: &BigUint, p: AffinePoint<C>) -> AffinePoint<C> {
    let mut r = AffinePoint::ZERO;
    let mut k = n.bits();
    while k > 0 {
        k -= 1;
        r = aadd(r, r);
        if (n >> k as usize) & BigUint::from(1u32) == BigUint::from(1u32) {
            r = aadd(r, p);
        }
    }
    r
}

/// Textbook affine addition over field operations only.
pub fn aadd<C: Curve>(p: AffinePoint<C>, q: AffinePoint<C>) -> AffinePoint<C> {
    if p.zero {
        return q;
    }
    if q.zero {
        return p;
    }
    let l = if p.x == q.x {
        if p.y != q.y || p.y == C::BaseField::ZERO {
            return AffinePoint::ZERO;
        }
        (C::BaseField::THREE * p.x * p.x + C::A) / (C::BaseField::TWO * p.y)
    } else {
        (q.y - p.y) / (q.x - p.x)
    };
    let x = l * l - p.x - q.x;
    AffinePoint { x, y: l * (p.x - x) - p.y, zero: false }
}

/// Interesting points of a real curve: infinity, the generator, its negative, small multiples of one
/// random point and their negatives, and (for Halo curves) none more.
pub fn some_points<C: Curve>(rng: &mut ChaCha8Rng, n: usize) -> Vec<AffinePoint<C>> {
    let g = C::GENERATOR_AFFINE;
    let p = amul(&BigUint::from(rng.gen::<u64>()), g);
    let mut v = vec![AffinePoint::ZERO, g, aneg(g), p, aneg(p), aadd(p, p), aneg(aadd(p, p)), aadd(g, p)];
    while v.len() < n {
        v.push(amul(&BigUint::from(rng.gen::<u128>()), g));
    }
    v.truncate(n);
    v
}

pub fn aneg<C: Curve>(p: AffinePoint<C>) -> AffinePoint<C> {
    AffinePoint { x: p.x, y: C::BaseField::ZERO - p.y, zero: p.zero }
}

pub fn hdr<C: Curve>() -> Value {
    json!({"E": curve::<C>(), "gen": pt(C::GENERATOR_AFFINE), "name": std::any::type_name::<C>(),
        "order": digits(&order::<C::ScalarField>())})
}

pub fn hdr_halo<C: HaloCurve>() -> Value {
    let mut h = hdr::<C>();
    h["zeta"] = fe(C::ZETA);
    h["zetas"] = fe(C::ZETA_SCALAR);
    h
}

pub fn res<T: Into<Value>>(mut o: Value, f: impl FnOnce() -> T) -> Value {
    match catch(f) {
        Ok(v) => {
            o["ok"] = json!(true);
            o["r"] = v.into();
        }
        Err(e) => {
            o["ok"] = json!(false);
            o["panic"] = json!(e);
        }
    }
    o
}
