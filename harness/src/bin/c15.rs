//! Field arithmetic (C15).
use vh::js::*;
use num::BigUint;
use plonky::{biguint_to_field, field_to_biguint, Field};
use plonky::{Bls12377Base, Bls12377Scalar, PallasBase, TweedledeeBase, TweedledumBase, VestaBase};
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use serde_json::{json, Value};

pub fn rand_below(rng: &mut ChaCha8Rng, m: &BigUint) -> BigUint {
    let mut b = vec![0u8; 64];
    rng.fill(&mut b[..]);
    BigUint::from_bytes_le(&b) % m
}

/// Canonical values which make carries, borrows and reductions happen: near limb boundaries, near the
/// modulus, and the same for the Montgomery representation.
pub fn edges<F: Field>(rng: &mut ChaCha8Rng, n_random: usize) -> Vec<BigUint> {
    let p = order::<F>();
    let limbs = F::ZERO.to_canonical_u64_vec().len();
    let one = BigUint::from(1u32);
    let mut v: Vec<BigUint> = vec![];
    for k in 0..6u32 {
        v.push(BigUint::from(k));
        v.push(&p - 1u32 - k);
    }
    for i in 1..limbs {
        let b = &one << (64 * i);
        for k in 0..2u32 {
            v.push(&b - k);
            v.push(&b + k);
            v.push((&p - &b) + k);
        }
    }
    v.push((&p + 1u32) >> 1);
    v.push((&p - 1u32) >> 1);
    // limb patterns
    for _ in 0..12 {
        let mut x = BigUint::from(0u32);
        for _ in 0..limbs {
            let l = match rng.gen_range(0, 5) {
                0 => 0u64,
                1 => u64::MAX,
                2 => 1,
                3 => u64::MAX - rng.gen_range(0, 3),
                _ => 1 << 63,
            };
            x = (x << 64) + l;
        }
        v.push(x % &p);
    }
    // limbs of the modulus, perturbed in one place
    for i in 0..limbs {
        let b = &one << (64 * i);
        v.push((&p + &p - &b) % &p);
    }
    let r_inv = {
        let r = (&one << (64 * limbs)) % &p;
        r.modpow(&(&p - 2u32), &p)
    };
    let mut out: Vec<BigUint> = v.iter().map(|x| x % &p).collect();
    out.extend(v.iter().map(|x| (x * &r_inv) % &p));
    for _ in 0..n_random {
        out.push(rand_below(rng, &p));
    }
    out.sort();
    out.dedup();
    out
}

fn res<T: Into<Value>>(mut o: Value, f: impl FnOnce() -> T) -> Value {
    match catch(f) {
        Ok(v) => {
            o["ok"] = json!(true);
            o["r"] = v.into();
        }
        Err(e) => {
            o["ok"] = json!(false);
            o["panic"] = json!(e);
        }
    }
    o
}

fn conv<F: Field, G: Field>(id: usize, g: usize, xs: &[BigUint], out: &mut Out) {
    // Conversion is defined between encodings of the same length.
    if F::BYTES != G::BYTES {
        return;
    }
    let pg = order::<G>();
    let pf = order::<F>();
    let mut vals: Vec<BigUint> = xs.iter().step_by(7).cloned().collect();
    for d in 0..2u32 {
        vals.push(&pg - 1u32 + d);
    }
    for x in vals {
        if x >= pf {
            continue;
        }
        let f = from_big::<F>(&x);
        out.rec(res(json!({"f": id, "g": g, "op": "conv", "a": digits(&x)}), || {
            match f.try_convert::<G>() {
                Ok(y) => json!([fe(y)]),
                Err(_) => json!([]),
            }
        }));
        out.rec(res(json!({"f": id, "g": g, "op": "conv", "a": digits(&x)}), || {
            match F::try_convert_all::<G>(&[f]) {
                Ok(y) => json!([fe(y[0])]),
                Err(_) => json!([]),
            }
        }));
    }
}

fn run<F: Field>(id: usize, rng: &mut ChaCha8Rng, out: &mut Out, thorough: bool) {
    let p = order::<F>();
    let xs = edges::<F>(rng, if thorough { 60 } else { 16 });
    let fs: Vec<F> = xs.iter().map(|x| from_big::<F>(x)).collect();
    let j = |x: &BigUint| digits(x);
    let pairs: Vec<(usize, usize)> = {
        let mut ps = vec![];
        let target = if thorough { 12000 } else { 2200 };
        for _ in 0..target {
            ps.push((rng.gen_range(0, xs.len()), rng.gen_range(0, xs.len())));
        }
        for a in 0..xs.len() {
            ps.push((a, a));
            ps.push((a, xs.len() - 1 - a));
            ps.push((a, 0));
            ps.push((a, xs.len() - 1));
        }
        ps
    };
    for &(a, b) in &pairs {
        let (x, y, f, g) = (&xs[a], &xs[b], fs[a], fs[b]);
        out.rec(res(json!({"f": id, "op": "add", "a": j(x), "b": j(y)}), || fe(f + g)));
        out.rec(res(json!({"f": id, "op": "sub", "a": j(x), "b": j(y)}), || fe(f - g)));
        out.rec(res(json!({"f": id, "op": "mul", "a": j(x), "b": j(y)}), || fe(f * g)));
        out.rec(res(json!({"f": id, "op": "cmp", "a": j(x), "b": j(y)}), || {
            f.cmp(&g) as i32 + 1
        }));
        out.rec(res(json!({"f": id, "op": "eq", "a": j(x), "b": j(y)}), || f == g));
    }
    for &(a, b) in pairs.iter().step_by(8) {
        if fs[b] != F::ZERO {
            out.rec(res(json!({"f": id, "op": "div", "a": j(&xs[a]), "b": j(&xs[b])}), || {
                fe(fs[a] / fs[b])
            }));
        }
        out.rec(res(json!({"f": id, "op": "exp", "a": j(&xs[a]), "b": j(&xs[b])}), || {
            fe(fs[a].exp(fs[b]))
        }));
    }
    for (x, &f) in xs.iter().zip(&fs) {
        out.rec(res(json!({"f": id, "op": "neg", "a": j(x)}), || fe(-f)));
        out.rec(res(json!({"f": id, "op": "sq", "a": j(x)}), || fe(f.square())));
        out.rec(res(json!({"f": id, "op": "cube", "a": j(x)}), || fe(f.cube())));
        out.rec(res(json!({"f": id, "op": "times", "k": 2, "a": j(x)}), || fe(f.double())));
        out.rec(res(json!({"f": id, "op": "times", "k": 3, "a": j(x)}), || fe(f.triple())));
        out.rec(res(json!({"f": id, "op": "times", "k": 4, "a": j(x)}), || fe(f.quadruple())));
        out.rec(res(json!({"f": id, "op": "inv", "a": j(x)}), || {
            f.multiplicative_inverse().map_or(json!([]), |i| json!([fe(i)]))
        }));
        for k in [0usize, 1, 2, 3, 5, 17, 64, 65, 127, 128].iter() {
            out.rec(res(
                json!({"f": id, "op": "exp", "a": j(x), "b": digits(&BigUint::from(*k))}),
                || fe(f.exp_usize(*k)),
            ));
        }
        out.rec(res(
            json!({"f": id, "op": "exp", "a": j(x), "b": digits(&BigUint::from(0xffff_ffffu32))}),
            || fe(f.exp_u32(0xffff_ffff)),
        ));
        out.rec(res(json!({"f": id, "op": "bits", "a": j(x)}), || f.num_bits()));
        out.rec(res(json!({"f": id, "op": "canon", "a": j(x)}), || {
            fe(F::from_canonical_u32_vec(f.to_canonical_u32_vec()))
        }));
        out.rec(res(json!({"f": id, "op": "canon", "a": j(x)}), || {
            fe(F::from_canonical_u8_vec(f.to_canonical_u8_vec()).unwrap())
        }));
        out.rec(res(json!({"f": id, "op": "canon", "a": j(x)}), || fe(biguint_to_field::<F>(x.clone()))));
        out.rec(res(json!({"f": id, "op": "canon", "a": j(x)}), || digits(&field_to_biguint(f))));
        out.rec(res(json!({"f": id, "op": "canon", "a": j(x)}), || {
            digits(&BigUint::from_bytes_le(&f.to_canonical_u8_vec()))
        }));
        out.rec(res(json!({"f": id, "op": "canon", "a": j(x)}), || {
            digits(&BigUint::from_slice(&f.to_canonical_u32_vec()))
        }));
        out.rec(res(json!({"f": id, "op": "canon", "a": j(x)}), || {
            let mut r = BigUint::from(0u32);
            for b in f.to_canonical_bool_vec().iter().rev() {
                r = r * 2u32 + (*b as u32);
            }
            digits(&r)
        }));
        out.rec(res(json!({"f": id, "op": "conv", "g": id, "a": j(x)}), || {
            json!([fe(f.try_convert::<F>().unwrap())])
        }));
        // square roots, of the element and of its square
        for &y in &[f, f * f] {
            out.rec(res(json!({"f": id, "op": "sqrt", "a": fe(y)}), || {
                y.square_root().map_or(json!([]), |i| json!([fe(i)]))
            }));
            out.rec(res(json!({"f": id, "op": "qr", "a": fe(y)}), || y.is_quadratic_residue()));
        }
        let alpha = big(F::ALPHA).to_u32_digits()[0];
        out.rec(res(json!({"f": id, "op": "root", "k": alpha, "a": j(x)}), || fe(f.kth_root(F::ALPHA))));
        out.rec(res(json!({"f": id, "op": "root", "k": alpha, "a": j(x)}), || fe(f.kth_root_u32(alpha))));
    }
    // other permutation exponents
    for k in (7u32..60).step_by(2) {
        if (2..k).all(|d| k % d != 0) && (&p - 1u32) % k != BigUint::from(0u32) {
            let x = rng.gen_range(0, xs.len());
            out.rec(res(json!({"f": id, "op": "root", "k": k, "a": j(&xs[x])}), || fe(fs[x].kth_root_u32(k))));
        }
    }
    // validity of encodings at and above the modulus
    let limbs = F::ZERO.to_canonical_u64_vec().len();
    let top = BigUint::from(1u32) << (64 * limbs);
    let mut raw: Vec<BigUint> = vec![&top - 1u32, &top >> 1, (&top >> 1) - 1u32];
    for k in 0..4u32 {
        raw.push(&p + k);
        raw.push(&p - 1u32 - k);
    }
    for i in 0..limbs {
        let b = BigUint::from(1u32) << (64 * i);
        raw.push(&p + &b);
        raw.push(&p - &b);
        raw.push(&p + &b - 1u32);
        raw.push(&p - &b + 1u32);
    }
    for _ in 0..20 {
        raw.push(rand_below(rng, &top));
    }
    for x in raw.iter().filter(|x| **x < top) {
        let mut l = x.to_u64_digits();
        l.resize(limbs, 0);
        out.rec(res(json!({"f": id, "op": "valid", "a": j(x)}), || F::is_valid_canonical_u64(&l)));
        let mut bytes = x.to_bytes_le();
        bytes.resize(8 * limbs, 0);
        out.rec(res(json!({"f": id, "op": "valid", "a": j(x)}), || {
            F::from_canonical_u8_vec(bytes).is_ok()
        }));
    }
    for k in [0u64, 1, 2, 1 << 31, u32::MAX as u64, 1 << 32, u64::MAX - 1, u64::MAX].iter() {
        out.rec(res(json!({"f": id, "op": "fromn", "a": j(&BigUint::from(*k))}), || {
            fe(F::from_canonical_u64(*k))
        }));
        out.rec(res(json!({"f": id, "op": "fromn", "a": j(&BigUint::from(*k))}), || {
            fe(F::from_canonical_usize(*k as usize))
        }));
        out.rec(res(json!({"f": id, "op": "fromn", "a": j(&BigUint::from(*k as u32))}), || {
            fe(F::from_canonical_u32(*k as u32))
        }));
    }
    for b in [false, true].iter() {
        out.rec(res(json!({"f": id, "op": "const", "k": *b as i32}), || fe(F::from_canonical_bool(*b))));
    }
    for (k, c) in [(0, F::ZERO), (1, F::ONE), (2, F::TWO), (3, F::THREE), (4, F::FOUR), (5, F::FIVE), (-1, F::NEG_ONE)].iter() {
        out.rec(res(json!({"f": id, "op": "const", "k": k}), || fe(*c)));
    }
    for k in 0..=F::TWO_ADICITY {
        out.rec(res(json!({"f": id, "op": "unity", "k": k}), || fe(F::primitive_root_of_unity(k))));
    }
    for k in 0..5usize {
        let g = F::primitive_root_of_unity(k);
        out.rec(res(json!({"f": id, "op": "subgroup", "k": 1 << k, "a": fe(g)}), || {
            fes(&F::cyclic_subgroup_known_order(g, 1 << k))
        }));
        out.rec(res(json!({"f": id, "op": "subgroup", "k": 1 << k, "a": fe(g)}), || {
            fes(&F::cyclic_subgroup_unknown_order(g))
        }));
        out.rec(res(json!({"f": id, "op": "const", "k": 1 << k}), || {
            fe(F::from_canonical_usize(F::generator_order(g)))
        }));
    }
    out.rec(json!({"f": id, "op": "params", "ok": true, "adicity": F::TWO_ADICITY, "t": fe(F::T),
        "gen": fe(F::MULTIPLICATIVE_SUBGROUP_GENERATOR), "alpha": fe(F::ALPHA), "bits": F::BITS, "bytes": F::BYTES}));
    // batches
    for n in 0..12usize {
        for zeros in [false, true].iter() {
            let mut b: Vec<F> = (0..n).map(|_| fs[rng.gen_range(0, fs.len())]).collect();
            if *zeros {
                for (i, x) in b.iter_mut().enumerate() {
                    if i % 3 == n % 3 {
                        *x = F::ZERO;
                    }
                }
                out.rec(res(json!({"f": id, "op": "batchinv", "xs": fes(&b)}), || {
                    F::batch_multiplicative_inverse_opt(&b)
                        .into_iter()
                        .map(|o: Option<F>| o.map_or(json!([]), |i| json!([fe(i)])))
                        .collect::<Vec<_>>()
                }));
            } else {
                for x in b.iter_mut() {
                    if *x == F::ZERO {
                        *x = F::TWO;
                    }
                }
                out.rec(res(json!({"f": id, "op": "batchinv", "xs": fes(&b)}), || {
                    F::batch_multiplicative_inverse(&b).into_iter().map(|i: F| json!([fe(i)])).collect::<Vec<_>>()
                }));
            }
            let ys: Vec<F> = (0..n).map(|_| fs[rng.gen_range(0, fs.len())]).collect();
            out.rec(res(json!({"f": id, "op": "inner", "xs": fes(&b), "ys": fes(&ys)}), || fe(F::inner_product(&b, &ys))));
            out.rec(res(json!({"f": id, "op": "addsl", "xs": fes(&b), "ys": fes(&ys)}), || fes(&F::add_slices(&b, &ys))));
            let a = fs[rng.gen_range(0, fs.len())];
            out.rec(res(json!({"f": id, "op": "scale", "a": fe(a), "xs": fes(&b)}), || fes(&a.scale_slice(&b))));
        }
    }
    for _ in 0..20 {
        out.rec(res(json!({"f": id, "op": "rand"}), || fe(F::rand())));
        out.rec(res(json!({"f": id, "op": "rand"}), || fe(F::rand_from_rng(rng))));
    }
    conv::<F, TweedledumBase>(id, 1, &xs, out);
    conv::<F, TweedledeeBase>(id, 2, &xs, out);
    conv::<F, PallasBase>(id, 3, &xs, out);
    conv::<F, VestaBase>(id, 4, &xs, out);
}

fn conv_bls<F: Field, G: Field>(id: usize, g: usize, rng: &mut ChaCha8Rng, out: &mut Out) {
    let xs = edges::<F>(rng, 10);
    conv::<F, G>(id, g, &xs, out);
}

fn main() {
    let (_, ctx) = vh::start();
    let (dir, seed, thorough) = (&ctx.dir, ctx.seed, ctx.thorough);
    let mut out = Out::new(&format!("{}/trace.ndjson", dir));
    let mut hdr = Out::new(&format!("{}/hdr.ndjson", dir));
    let mut rng = ChaCha8Rng::seed_from_u64(seed);
    macro_rules! all {
        ($($t:ty),*) => { $( hdr.rec(json!({"F": field::<$t>(), "name": stringify!($t)})); )* }
    }
    all!(TweedledumBase, TweedledeeBase, PallasBase, VestaBase, Bls12377Base, Bls12377Scalar);
    run::<TweedledumBase>(1, &mut rng, &mut out, thorough);
    run::<TweedledeeBase>(2, &mut rng, &mut out, thorough);
    run::<PallasBase>(3, &mut rng, &mut out, thorough);
    run::<VestaBase>(4, &mut rng, &mut out, thorough);
    run::<Bls12377Base>(5, &mut rng, &mut out, thorough);
    run::<Bls12377Scalar>(6, &mut rng, &mut out, thorough);
    // Between fields with different encoding lengths, conversion is by value when the lengths match.
    conv_bls::<Bls12377Scalar, Bls12377Scalar>(6, 6, &mut rng, &mut out);
    conv_bls::<Bls12377Base, Bls12377Base>(5, 5, &mut rng, &mut out);
}
