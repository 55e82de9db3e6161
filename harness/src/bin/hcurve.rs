//! Hashing to curves (C21).
use num::BigUint;
use plonky::*;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use rayon::prelude::*;
use serde_json::{json, Value};
use std::sync::mpsc::channel;
use std::time::Duration;
use vh::js::*;
use vh::prover::rescue_js;
use vh::toy::*;

type B<C> = <C as Curve>::BaseField;

/// Runs code under test which might not return; a hang is recorded like a panic.
fn timed<T: Send + 'static>(secs: u64, f: impl FnOnce() -> T + Send + 'static) -> Result<T, String> {
    let (tx, rx) = channel();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let _ = tx.send(catch(f));
        })
        .unwrap();
    rx.recv_timeout(Duration::from_secs(secs)).unwrap_or_else(|_| Err("does not terminate".into()))
}

fn put(mut o: Value, r: Result<Value, String>) -> Value {
    match r {
        Ok(v) => {
            o["ok"] = json!(true);
            o["r"] = v;
        }
        Err(e) => {
            o["ok"] = json!(false);
            o["panic"] = json!(e);
        }
    }
    o
}

/// The hash stream of one attempt, by the blake3 crate.
fn attempt<F: Field>(seed: F, i: usize, j: usize) -> Vec<u8> {
    let mut b = seed.to_canonical_u8_vec();
    b.push(i as u8);
    b.push(j as u8);
    let mut h = vec![0; F::BYTES + 1];
    let mut x = blake3::Hasher::new();
    x.update(&b);
    x.finalize_xof().fill(&mut h);
    h
}

fn cut<F: Field>(h: &[u8]) -> BigUint {
    let mut b = h[..F::BYTES].to_vec();
    b[F::BYTES - 1] >>= 8 * F::BYTES - F::BITS;
    BigUint::from_bytes_le(&b)
}

/// The attempts until the curve is met (found here with arithmetic only), plus one more.
fn attempts<C: Curve>(seed: B<C>) -> (Value, usize, usize) {
    let p = order::<B<C>>();
    let half = (&p - 1u32) >> 1;
    let (mut hs, mut mj, mut more) = (vec![], 0, 1);
    for i in 0..200 {
        let mut row = vec![];
        for j in 0..200 {
            let h = attempt(seed, i, j);
            let x = cut::<B<C>>(&h);
            row.push(json!(h));
            if x < p {
                mj = mj.max(j);
                let f = |n: BigUint| n % &p;
                let rhs = f(&x * &x * &x + big(C::A) * &x + big(C::B));
                if rhs == BigUint::from(0u32) || rhs.modpow(&half, &p) == BigUint::from(1u32) {
                    more -= 1;
                }
                break;
            }
        }
        hs.push(Value::Array(row));
        if more < 0 {
            return (Value::Array(hs), i, mj);
        }
    }
    (Value::Array(hs), 200, mj)
}

fn chunked<C: Curve, G: Fn(B<C>) -> AffinePoint<C> + Send + Sync + Copy + 'static>(seeds: Vec<B<C>>, f: G) -> Result<Value, String> {
    timed(120, move || Value::Array(seeds.par_iter().map(|&s| pt(f(s))).collect()))
}

/// Integer seeds: small ones, and around the limits of the machine's integers.
fn integers<C: Curve>(real: bool, rng: &mut ChaCha8Rng) -> Vec<usize> {
    let mut v = vec![0usize, 1, 2, 255, 256];
    if real {
        v.extend(&[65535, 65536, 65537, u32::MAX as usize, 1 << 32, (1 << 32) + 1, (1 << 53) + 1, 1 << 63, usize::MAX - 1, usize::MAX]);
        let k: usize = rng.gen_range(0, 1 << 16);
        v.extend(&[rng.gen(), rng.gen::<u32>() as usize, k << 32, k << 32 | k]);
    }
    v.retain(|&k| BigUint::from(k) < order::<B<C>>());
    v
}

fn run<C: Curve + 'static>(c: usize, real: bool, thorough: bool, rng: &mut ChaCha8Rng, hd: &mut Out, out: &mut Out) {
    let secs = [0usize, 128];
    hd.rec(json!({"E": curve::<C>(), "bits": B::<C>::BITS, "bytes": B::<C>::BYTES, "rs": secs.iter().map(|&s| {
        let mut o = rescue_js::<B<C>>(s, 4);
        o["sec"] = json!(s);
        o
    }).collect::<Vec<_>>()}));
    let mut seeds: Vec<B<C>> = (0..if real { 30 } else { 100 }).map(B::<C>::from_canonical_usize).collect();
    seeds.push(B::<C>::NEG_ONE);
    seeds.push(B::<C>::NEG_ONE - B::<C>::ONE);
    // many attempts
    let pool: Vec<B<C>> = (0..if thorough { 20000 } else { 3000 }).map(|_| B::<C>::rand_from_rng(rng)).collect();
    if real {
        let mut scored: Vec<(usize, usize, B<C>)> = pool.par_iter().map(|&s| { let (_, i, j) = attempts::<C>(s); (i, j, s) }).collect();
        scored.sort_by_key(|x| x.0);
        seeds.extend(scored.iter().rev().take(8).map(|x| x.2));
        scored.sort_by_key(|x| x.1);
        seeds.extend(scored.iter().rev().take(8).map(|x| x.2));
    }
    seeds.extend(pool.iter().take(20));
    let recs: Vec<Value> = seeds.par_iter().map(|&s| {
        let o = json!({"c": c, "op": "blake", "seed": fe(s), "hs": attempts::<C>(s).0});
        put(o, timed(60, move || pts(&[blake_hash_base_field_to_curve::<C>(s), blake_hash_base_field_to_curve::<C>(s)])))
    }).collect();
    recs.into_iter().for_each(|r| out.rec(r));
    for (q, &sec) in secs.iter().enumerate() {
        let m = if thorough { 40 } else if real { 6 } else { 40 };
        let ss: Vec<B<C>> = (0..m).map(|k| if k % 2 == 0 { B::<C>::from_canonical_usize(k / 2) } else { B::<C>::rand_from_rng(rng) }).collect();
        let recs: Vec<Value> = ss.par_iter().map(|&s| {
            // as many attempts as needed are found by the specification, at most 24
            let o = json!({"c": c, "op": "rescue", "seed": fe(s), "q": q + 1, "n": 24});
            put(o, timed(60, move || pts(&[hash_base_field_to_curve::<C>(s, sec), hash_base_field_to_curve::<C>(s, sec)])))
        }).collect();
        recs.into_iter().for_each(|r| out.rec(r));
        // the integer seeds are the elements
        for k in integers::<C>(real, rng) {
            out.rec(put(json!({"c": c, "op": "same"}), timed(60, move || {
                let mut v = vec![hash_usize_to_curve::<C>(k, sec), hash_base_field_to_curve::<C>(from_big(&BigUint::from(k)), sec)];
                if k <= u32::MAX as usize {
                    v.push(hash_u32_to_curve::<C>(k as u32, sec));
                }
                pts(&v)
            })));
        }
    }
    for k in integers::<C>(real, rng) {
        out.rec(put(json!({"c": c, "op": "same"}), timed(60, move || {
            pts(&[blake_hash_usize_to_curve::<C>(k), blake_hash_base_field_to_curve::<C>(from_big(&BigUint::from(k)))])
        })));
    }
    if !real {
        return;
    }
    // different seeds: consecutive, with single bytes or bits changed, and random ones
    let mut many: Vec<B<C>> = (0..if thorough { 6000 } else { 1500 }).map(B::<C>::from_canonical_usize).collect();
    for s in &[B::<C>::ZERO, pool[0], pool[1]] {
        let b = big(*s);
        for k in 11..B::<C>::BITS - 2 {
            many.push(from_big(&((&b ^ (BigUint::from(1u32) << k)) % order::<B<C>>())));
        }
    }
    for k in 1..60 {
        many.push(B::<C>::NEG_ONE - B::<C>::from_canonical_usize(k * k));
    }
    many.extend(pool.iter().take(500));
    let mut seen = std::collections::HashSet::new();
    many.retain(|s| seen.insert(big(*s)));
    let o = json!({"c": c, "op": "distinct", "n": many.len()});
    let few: Vec<B<C>> = many.iter().copied().skip(if thorough { 5700 } else { 1450 }).take(if thorough { 1500 } else { 700 }).collect();
    let r = chunked::<C, _>(many, |s| blake_hash_base_field_to_curve::<C>(s));
    out.rec(put(o, r));
    let o = json!({"c": c, "op": "distinct", "n": few.len()});
    let r = chunked::<C, _>(few, |s| hash_base_field_to_curve::<C>(s, 0));
    out.rec(put(o, r));
}

fn gens<C: HaloCurve>(c: usize, sizes: &[usize], out: &mut Out) {
    for &n in sizes {
        let r = catch(|| {
            let mut b = CircuitBuilder::<C>::new(128);
            let t = b.one_wire();
            let mut x = t;
            for _ in 0..n * 5 / 8 - 1 {
                x = b.add(x, t);
            }
            let circuit = b.build();
            let d = circuit.degree();
            let mut v = circuit.pedersen_g.clone();
            v.push(circuit.pedersen_h);
            v.push(circuit.u);
            (d, pts(&v))
        });
        let (d, v) = match r {
            Ok((d, v)) => (d, Ok(v)),
            Err(e) => (n, Err(e)),
        };
        let list: Result<Value, String> = timed(120, move || pts(&(0..d + 2).map(blake_hash_usize_to_curve::<C>).collect::<Vec<_>>()));
        out.rec(put(json!({"c": c, "op": "gens", "n": d, "list": list.unwrap_or(json!([]))}), v));
    }
}

fn main() {
    let (_, ctx) = vh::start();
    let mut rng = ChaCha8Rng::seed_from_u64(ctx.seed);
    let mut out = Out::new(&format!("{}/trace.ndjson", ctx.dir));
    let mut hd = Out::new(&format!("{}/hdr.ndjson", ctx.dir));
    run::<Tweedledee>(1, true, ctx.thorough, &mut rng, &mut hd, &mut out);
    run::<Tweedledum>(2, true, ctx.thorough, &mut rng, &mut hd, &mut out);
    run::<Pallas>(3, true, ctx.thorough, &mut rng, &mut hd, &mut out);
    run::<Vesta>(4, true, ctx.thorough, &mut rng, &mut hd, &mut out);
    run::<Bls12377>(5, true, ctx.thorough, &mut rng, &mut hd, &mut out);
    run::<T613>(6, false, ctx.thorough, &mut rng, &mut hd, &mut out);
    run::<T6529>(7, false, ctx.thorough, &mut rng, &mut hd, &mut out);
    run::<I257>(8, false, ctx.thorough, &mut rng, &mut hd, &mut out);
    let sizes: &[usize] = if ctx.thorough { &[8, 16, 32, 64, 128, 256] } else { &[8, 16, 64] };
    gens::<Tweedledee>(1, sizes, &mut out);
    gens::<Tweedledum>(2, &sizes[1..], &mut out);
    gens::<Pallas>(3, &sizes[1..], &mut out);
    gens::<Vesta>(4, &sizes[1..], &mut out);
}
