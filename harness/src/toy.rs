//! Tiny prime fields and curves implementing plonky's traits, so that its generic code can be
//! explored exhaustively.
use plonky::{AffinePoint, Curve, Field, HaloCurve};
use rand::Rng;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cmp::Ordering;
use std::fmt;
use std::ops::{Add, Div, Mul, Neg, Sub};

#[derive(Copy, Clone, Eq, PartialEq, Hash, Default)]
pub struct Fp<const P: u64>(pub u64);

const fn pow_mod(mut b: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1;
    b %= p;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % p;
        }
        b = b * b % p;
        e >>= 1;
    }
    r
}

const fn adicity(p: u64) -> usize {
    let mut k = 0;
    let mut n = p - 1;
    while n % 2 == 0 {
        n /= 2;
        k += 1;
    }
    k
}

const fn odd_part(p: u64) -> u64 {
    (p - 1) >> adicity(p)
}

const fn is_generator(g: u64, p: u64) -> bool {
    // g generates iff g^((p-1)/q) != 1 for each prime q | p - 1.
    let mut n = p - 1;
    let mut q = 2;
    while n > 1 {
        if n % q == 0 {
            if pow_mod(g, (p - 1) / q, p) == 1 {
                return false;
            }
            while n % q == 0 {
                n /= q;
            }
        }
        q += 1;
    }
    true
}

const fn generator(p: u64) -> u64 {
    let mut g = 2;
    while !is_generator(g, p) {
        g += 1;
    }
    g
}

const fn bits(p: u64) -> usize {
    64 - (p - 1).leading_zeros() as usize
}

impl<const P: u64> Add for Fp<P> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Fp((self.0 + o.0) % P)
    }
}
impl<const P: u64> Sub for Fp<P> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Fp((self.0 + P - o.0) % P)
    }
}
impl<const P: u64> Mul for Fp<P> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Fp(self.0 * o.0 % P)
    }
}
impl<const P: u64> Neg for Fp<P> {
    type Output = Self;
    fn neg(self) -> Self {
        Fp((P - self.0) % P)
    }
}
impl<const P: u64> Div for Fp<P> {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        self * o.multiplicative_inverse().expect("No inverse")
    }
}
impl<const P: u64> PartialOrd for Fp<P> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<const P: u64> Ord for Fp<P> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.cmp(&o.0)
    }
}
impl<const P: u64> fmt::Debug for Fp<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u64> fmt::Display for Fp<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u64> Serialize for Fp<P> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u64(self.0)
    }
}
impl<'de, const P: u64> Deserialize<'de> for Fp<P> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        u64::deserialize(d).map(Fp)
    }
}

impl<const P: u64> Field for Fp<P> {
    const BITS: usize = bits(P);
    const BYTES: usize = 2;
    const ZERO: Self = Fp(0);
    const ONE: Self = Fp(1);
    const TWO: Self = Fp(2);
    const THREE: Self = Fp(3);
    const FOUR: Self = Fp(4);
    const FIVE: Self = Fp(5);
    const NEG_ONE: Self = Fp(P - 1);
    const MULTIPLICATIVE_SUBGROUP_GENERATOR: Self = Fp(generator(P));
    const ALPHA: Self = Fp(5);
    const TWO_ADICITY: usize = adicity(P);
    const T: Self = Fp(odd_part(P));

    fn to_canonical_u64_vec(&self) -> Vec<u64> {
        vec![self.0, 0]
    }
    fn from_canonical_u64_vec(v: Vec<u64>) -> Self {
        assert!(v[1..].iter().all(|&x| x == 0) && v[0] < P);
        Fp(v[0])
    }
    fn from_canonical_u32_vec(v: Vec<u32>) -> Self {
        assert!(v[1..].iter().all(|&x| x == 0) && (v[0] as u64) < P);
        Fp(v[0] as u64)
    }
    // Two bytes, so that hashing to the curve finds field elements.
    fn to_canonical_u8_vec(&self) -> Vec<u8> {
        vec![self.0 as u8, (self.0 >> 8) as u8]
    }
    fn from_canonical_u8_vec(v: Vec<u8>) -> anyhow::Result<Self> {
        let n = v[0] as u64 + ((v[1] as u64) << 8);
        if v.len() == 2 && n < P {
            Ok(Fp(n))
        } else {
            Err(anyhow::Error::msg("Out of range"))
        }
    }
    fn from_canonical_u64(n: u64) -> Self {
        Fp(n % P)
    }
    fn is_valid_canonical_u64(v: &[u64]) -> bool {
        v.len() == 2 && v[1] == 0 && v[0] < P
    }
    fn multiplicative_inverse_assuming_nonzero(&self) -> Self {
        Fp(pow_mod(self.0, P - 2, P))
    }
    fn rand() -> Self {
        Fp(rand::thread_rng().gen_range(0, P))
    }
    fn rand_from_rng<R: Rng>(rng: &mut R) -> Self {
        Fp(rng.gen_range(0, P))
    }
}

macro_rules! toy_curve {
    ($name:ident, $p:expr, $q:expr, $a:expr, $b:expr, ($x:expr, $y:expr)) => {
        #[derive(Debug, Copy, Clone, Eq, PartialEq)]
        pub struct $name;
        impl Curve for $name {
            type BaseField = Fp<$p>;
            type ScalarField = Fp<$q>;
            const A: Fp<$p> = Fp($a);
            const B: Fp<$p> = Fp($b);
            const GENERATOR_AFFINE: AffinePoint<Self> =
                AffinePoint { x: Fp($x), y: Fp($y), zero: false };
        }
    };
    ($name:ident, $p:expr, $q:expr, $a:expr, $b:expr, ($x:expr, $y:expr), $z:expr, $zs:expr) => {
        toy_curve!($name, $p, $q, $a, $b, ($x, $y));
        impl HaloCurve for $name {
            const ZETA: Fp<$p> = Fp($z);
            const ZETA_SCALAR: Fp<$q> = Fp($zs);
        }
    };
}

// Cycles: the scalar field of one is the base field of the other.
toy_curve!(T613, 613, 577, 0, 5, (7, 31), 65, 213); // scalar field F_577
toy_curve!(T577, 577, 613, 0, 7, (1, 68), 363, 547);
toy_curve!(T6397, 6397, 6529, 0, 11, (1, 160), 2294, 6037); // scalar field F_6529
toy_curve!(T6529, 6529, 6397, 0, 7, (1, 3224), 6037, 2294);
toy_curve!(T97, 97, 103, 0, 10, (1, 37), 35, 56);
toy_curve!(T103, 103, 97, 0, 5, (2, 42), 56, 35); // scalar field F_97
// Curves with points of order two, and with A != 0. The group order is not the scalar field's.
toy_curve!(E84, 97, 103, 0, 1, (0, 1));
toy_curve!(E80, 97, 103, 1, 0, (1, 14));
toy_curve!(E96, 97, 103, 5, 7, (2, 5));
// For circuits over small scalar fields with enough roots of unity to build them. The group order is not
// the scalar field's, so nothing is ever proved with these.
toy_curve!(G257, 613, 257, 0, 5, (7, 31), 65, 1);
toy_curve!(G12289, 613, 12289, 0, 5, (7, 31), 65, 1);
// Scalar (Ox) and base (Ix) fields for the gates over tiny fields; only the constants matter.
toy_curve!(O5, 613, 5, 0, 5, (7, 31), 65, 1);
toy_curve!(I5, 5, 613, 2, 1, (0, 1), 3, 1);
toy_curve!(O7, 613, 7, 0, 5, (7, 31), 65, 1);
toy_curve!(I7, 7, 613, 0, 1, (0, 1), 2, 1);
toy_curve!(O13, 613, 13, 0, 5, (7, 31), 65, 1);
toy_curve!(I13, 13, 613, 5, 1, (0, 1), 3, 1);
toy_curve!(O17, 613, 17, 0, 5, (7, 31), 65, 1);
toy_curve!(I17, 17, 613, 0, 1, (0, 1), 4, 1);
toy_curve!(I257, 257, 613, 3, 1, (0, 1), 7, 1);
toy_curve!(I12289, 12289, 613, 2, 1, (0, 1), 11, 1);
