//! Serialization (C16).
use num::BigUint;
use plonky::*;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use rayon::prelude::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::io::{Read, Write};
use vh::circuits::*;
use vh::js::*;
use vh::prover::*;
use vh::pts::*;
use vh::toy::*;

/// A reader that hands out its bytes in small pieces of varying length, with interruptions.
struct Bits<'a> {
    b: &'a [u8],
    at: usize,
    step: usize,
    n: usize,
}
impl<'a> Read for Bits<'a> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        self.n += 1;
        if self.step > 0 && self.n % 3 == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "again"));
        }
        let k = out.len().min(self.b.len() - self.at);
        let k = if self.step > 0 { k.min(1 + self.n % self.step) } else { k };
        out[..k].copy_from_slice(&self.b[self.at..self.at + k]);
        self.at += k;
        Ok(k)
    }
}
/// A writer that takes few bytes at a time.
struct Slow(Vec<u8>, usize);
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let k = if self.1 > 0 { b.len().min(1 + self.0.len() % self.1) } else { b.len() };
        self.0.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

#[derive(Clone, Copy)]
enum Item<C: Curve> {
    F(C::BaseField),
    S(C::ScalarField),
    P(AffinePoint<C>),
}
impl<C: Curve> Item<C> {
    fn t(&self) -> &'static str {
        match self {
            Item::F(_) => "f",
            Item::S(_) => "s",
            Item::P(_) => "p",
        }
    }
    fn v(&self) -> Value {
        match self {
            Item::F(x) => fe(*x),
            Item::S(x) => fe(*x),
            Item::P(p) => pt(*p),
        }
    }
    fn js(&self) -> Value {
        json!([self.t(), self.v()])
    }
    fn write<W: Write>(&self, w: W) -> std::io::Result<()> {
        match self {
            Item::F(x) => x.write(w),
            Item::S(x) => x.write(w),
            Item::P(p) => p.write(w),
        }
    }
}
fn read<C: Curve, R: Read>(t: &str, r: R) -> std::io::Result<Value> {
    match t {
        "f" => C::BaseField::read(r).map(fe),
        "s" => C::ScalarField::read(r).map(fe),
        _ => AffinePoint::<C>::read(r).map(pt),
    }
}

fn encode<C: Curve>(its: &[Item<C>], step: usize) -> Vec<u8> {
    let mut w = Slow(vec![], step);
    for i in its {
        i.write(&mut w).unwrap();
    }
    w.0
}

fn dec<C: Curve>(c: usize, t: &str, b: &[u8], step: usize, out: &mut Out) {
    let mut r = Bits { b, at: 0, step, n: 0 };
    let v = catch(|| read::<C, _>(t, &mut r));
    let mut o = json!({"c": c, "op": "dec", "t": t, "b": b, "used": r.at});
    match v {
        Ok(v) => {
            o["ok"] = json!(true);
            o["r"] = match v {
                Ok(v) => json!([v]),
                Err(_) => json!([]),
            };
        }
        Err(e) => {
            o["ok"] = json!(false);
            o["panic"] = json!(e);
        }
    }
    out.rec(o);
}

fn stream<C: Curve>(c: usize, ts: &[&str], b: &[u8], step: usize, out: &mut Out) {
    let mut rd = Bits { b, at: 0, step, n: 0 };
    let (mut rs, mut at) = (vec![], vec![]);
    let v = catch(|| {
        for t in ts {
            match read::<C, _>(t, &mut rd) {
                Ok(v) => {
                    rs.push(json!([v]));
                    at.push(rd.at);
                }
                Err(_) => {
                    rs.push(json!([]));
                    break;
                }
            }
        }
    });
    let mut o = json!({"c": c, "op": "stream", "ts": ts, "b": b, "r": rs, "at": at, "ok": v.is_ok()});
    if let Err(e) = v {
        o["panic"] = json!(e);
    }
    out.rec(o);
}

fn items<C: Curve>(ps: &[AffinePoint<C>], n: usize, rng: &mut ChaCha8Rng) -> Vec<Item<C>> {
    fn edge<F: Field>(rng: &mut ChaCha8Rng) -> F {
        match rng.gen_range(0, 6) {
            0 => F::ZERO,
            1 => F::NEG_ONE,
            2 => F::ONE,
            _ => F::rand_from_rng(rng),
        }
    }
    (0..n)
        .map(|_| match rng.gen_range(0, 4) {
            0 => Item::F(edge(rng)),
            1 => Item::S(edge(rng)),
            _ => Item::P(ps[rng.gen_range(0, ps.len())]),
        })
        .collect()
}

fn generic<C: Curve>(c: usize, ps: &[AffinePoint<C>], rounds: usize, rng: &mut ChaCha8Rng, out: &mut Out) {
    for &p in ps {
        let it = Item::P(p);
        out.rec(res(json!({"c": c, "op": "enc", "items": [it.js()]}), || json!(encode(&[it], 0))));
    }
    for r in 0..rounds {
        let n = rng.gen_range(1, 9);
        let its = items(ps, n, rng);
        out.rec(res(json!({"c": c, "op": "enc", "items": its.iter().map(|i| i.js()).collect::<Vec<_>>()}), || json!(encode(&its, r % 4))));
        let b = encode(&its, 0);
        let ts: Vec<&str> = its.iter().map(|i| i.t()).collect();
        stream::<C>(c, &ts, &b, r % 5, out);
        // truncated somewhere, followed by something, altered, or read as other types
        let k = rng.gen_range(0, b.len());
        stream::<C>(c, &ts, &b[..k], r % 5, out);
        let mut more = b.clone();
        more.extend((0..rng.gen_range(1, 50)).map(|_| rng.gen::<u8>()));
        stream::<C>(c, &ts, &more, r % 5, out);
        let mut bad = b.clone();
        let j = rng.gen_range(0, b.len());
        bad[j] ^= 1 << rng.gen_range(0, 8);
        stream::<C>(c, &ts, &bad, r % 5, out);
        let mut ts2 = ts.clone();
        ts2.reverse();
        stream::<C>(c, &ts2, &b, r % 5, out);
    }
}

/// Numbers around the modulus, and bytes which are none.
fn edges<C: Curve>(c: usize, ps: &[AffinePoint<C>], rng: &mut ChaCha8Rng, out: &mut Out) {
    fn near<F: Field>(rng: &mut ChaCha8Rng) -> Vec<Vec<u8>> {
        let p = order::<F>();
        let top = BigUint::from(1u32) << (8 * F::BYTES);
        let mut v = vec![];
        for k in 0..4u32 {
            v.push(BigUint::from(k));
            v.push(&p + k);
            v.push(&p - k);
            v.push(&p + &p + k);
            v.push(&top - 1u32 - k);
        }
        for k in 0..8 * F::BYTES {
            v.push(BigUint::from(1u32) << k);
            v.push(&p + (BigUint::from(1u32) << k));
            v.push(&p - ((BigUint::from(1u32) << k) % &p));
        }
        for _ in 0..20 {
            let b: Vec<u8> = (0..F::BYTES).map(|_| rng.gen()).collect();
            v.push(BigUint::from_bytes_le(&b));
        }
        v.into_iter().filter(|n| n < &top).map(|n| {
            let mut b = n.to_bytes_le();
            b.resize(F::BYTES, 0);
            b
        }).collect()
    }
    for (j, b) in near::<C::BaseField>(rng).iter().enumerate() {
        dec::<C>(c, "f", b, j % 5, out);
        for m in 0..4u8 {
            if m == j as u8 % 4 || j < 30 {
                let mut q = vec![m];
                q.extend(b);
                dec::<C>(c, "p", &q, j % 5, out);
            }
        }
    }
    for b in near::<C::ScalarField>(rng) {
        dec::<C>(c, "s", &b, 0, out);
    }
    for &p in ps.iter().take(6) {
        let b = encode(&[Item::P(p)], 0);
        for k in 0..b.len() {
            dec::<C>(c, "p", &b[..k], k % 3, out);
        }
        for m in 0..=255u8 {
            if m < 8 || m % 37 == 0 || m == 255 || m.count_ones() == 1 {
                let mut q = b.clone();
                q[0] = m;
                dec::<C>(c, "p", &q, 0, out);
            }
        }
        for k in 1..b.len() {
            let mut q = b.clone();
            q[k] ^= 1 << rng.gen_range(0, 8);
            dec::<C>(c, "p", &q, 0, out);
        }
    }
}

/// Everything over a small field.
fn small<C: Curve>(c: usize, out: &mut Out) {
    let p = order::<C::BaseField>().to_u64_digits()[0];
    for x in 0..2 * p + 9 {
        let b = [x as u8, (x >> 8) as u8];
        dec::<C>(c, "f", &b, 0, out);
        for m in 0..5 {
            dec::<C>(c, "p", &[m, b[0], b[1]], 0, out);
        }
    }
}

fn flat(v: &Value, t: &str, acc: &mut Vec<Value>) {
    // leaves of the projections below: [type, value] pairs
    match v {
        Value::Object(o) => {
            for (k, x) in o {
                let t = match k.as_str() {
                    "cw" | "ct" | "cc" | "cs" | "L" | "R" | "pl" => "ps",
                    "cz" | "cq" | "G" | "sr" | "p" => "p",
                    "os" => "os",
                    "z1" | "z2" | "z" | "q" | "s" if t != "os" => "s",
                    "z" | "q" => "s",
                    "c" | "s" | "w" | "t" | "o" => "ss",
                    "f" => "f",
                    "fl" => "fs",
                    _ => "",
                };
                flat(x, t, acc);
            }
        }
        Value::Array(a) if t == "os" => a.iter().for_each(|x| flat(x, t, acc)),
        Value::Array(a) if t == "ps" || t == "ss" || t == "fs" => a.iter().for_each(|x| acc.push(json!([&t[..1], x]))),
        x if t == "p" || t == "s" || t == "f" => acc.push(json!([t, x])),
        _ => (),
    }
}

/// A value of a type with serde's traits, through CBOR in both of its styles, whole, cut and altered.
fn serde<T: Serialize + DeserializeOwned + PartialEq + Sync>(
    c: usize, what: &str, x: &T, js: impl Fn(&T) -> Value + Sync, every: usize, rng: &mut ChaCha8Rng, out: &mut Out,
) {
    let v = js(x);
    for packed in &[false, true] {
        let o = json!({"c": c, "op": "serde", "what": what, "packed": packed, "v": v});
        let enc = catch(|| {
            if *packed { serde_cbor::ser::to_vec_packed(x) } else { serde_cbor::to_vec(x) }.map_err(|e| e.to_string())
        });
        let b = match enc {
            Ok(Ok(b)) => b,
            Ok(Err(e)) | Err(e) => {
                let mut o = o;
                o["ok"] = json!(false);
                o["panic"] = json!(e);
                out.rec(o);
                continue;
            }
        };
        let mut eq = false;
        let mut r = res(o.clone(), || {
            let y: T = serde_cbor::from_slice(&b).unwrap();
            eq = y == *x && (if *packed { serde_cbor::ser::to_vec_packed(&y) } else { serde_cbor::to_vec(&y) }).unwrap() == b;
            js(&y)
        });
        r["eq"] = json!(eq);
        out.rec(r);
        // from a reader
        let mut eq = false;
        let mut r = res(o, || {
            let y: T = serde_cbor::from_reader(Bits { b: &b, at: 0, step: 4, n: 0 }).unwrap();
            eq = y == *x;
            js(&y)
        });
        r["eq"] = json!(eq);
        out.rec(r);
        let start = rng.gen_range(0, every);
        let cuts: Vec<usize> = (0..b.len()).filter(|k| k % every == start || *k < 40 || *k + 40 > b.len()).collect();
        out.rec(res(json!({"c": c, "op": "cuts", "what": what, "packed": packed}), || {
            json!(cuts.par_iter().filter(|&&k| serde_cbor::from_slice::<T>(&b[..k]).is_ok()).collect::<Vec<_>>())
        }));
        let masks: Vec<(usize, u8)> = cuts.iter().map(|&k| (k, 1u8 << rng.gen_range(0, 8))).collect();
        let mut base = vec![];
        flat(&v, "", &mut base);
        let base: std::collections::HashSet<String> = base.iter().map(|x| x.to_string()).collect();
        out.rec(res(json!({"c": c, "op": "altered", "what": what, "packed": packed, "n": masks.len()}), || {
            let all: Vec<Value> = masks.par_iter().flat_map(|&(k, m)| {
                let mut q = b.clone();
                q[k] ^= m;
                let mut a = vec![];
                if let Ok(y) = serde_cbor::from_slice::<T>(&q) {
                    flat(&js(&y), "", &mut a);
                }
                a.retain(|x| !base.contains(&x.to_string()));
                a
            }).collect();
            Value::Array(all)
        }));
    }
}

fn values<C: Curve>(c: usize, ps: &[AffinePoint<C>], every: usize, rng: &mut ChaCha8Rng, out: &mut Out)
where
    C::BaseField: DeserializeOwned,
{
    for &p in ps {
        serde(c, "point", &p, |p: &AffinePoint<C>| json!({"p": pt(*p)}), every, rng, out);
    }
    serde(c, "points", &ps.to_vec(), |p: &Vec<AffinePoint<C>>| json!({"pl": pts(p)}), every, rng, out);
    serde(c, "points", &vec![] as &Vec<AffinePoint<C>>, |p: &Vec<AffinePoint<C>>| json!({"pl": pts(p)}), every, rng, out);
    let fs = vec![C::BaseField::ZERO, C::BaseField::ONE, C::BaseField::NEG_ONE, C::BaseField::rand_from_rng(rng)];
    for &f in &fs {
        serde(c, "field", &f, |f: &C::BaseField| json!({"f": fe(*f)}), every, rng, out);
    }
    serde(c, "fields", &fs, |f: &Vec<C::BaseField>| json!({"fl": fes(f)}), every, rng, out);
}

fn proofs<C: HaloCurve + Serialize + DeserializeOwned + PartialEq + Default, I: HaloCurve<BaseField = C::ScalarField>>(c: usize, every: usize, rng: &mut ChaCha8Rng, out: &mut Out) {
    let case = basic::<C>(3, 6, rng);
    let circuit = &case.circuit;
    let w = circuit.generate_witness(case.partial());
    let p0 = circuit.generate_proof::<I>(&w, &[], true).unwrap();
    let old = verify_proof::<C, I>(&pis_of(circuit, &case.table()), &p0, &[], &circuit.to_vk(), false).unwrap().unwrap();
    let p1 = circuit.generate_proof::<I>(&w, &[old], false).unwrap();
    // unusual contents: infinity in every place, extreme elements, empty lists
    let mut p2 = p1.clone();
    p2.c_wires[0] = AffinePoint::ZERO;
    p2.c_plonk_z = AffinePoint::ZERO;
    p2.c_plonk_t = vec![AffinePoint::ZERO; 3];
    p2.c_pis_quotient = AffinePoint::ZERO;
    p2.halo_g = AffinePoint::ZERO;
    p2.schnorr_proof.r = AffinePoint::ZERO;
    p2.schnorr_proof.z1 = C::ScalarField::NEG_ONE;
    p2.schnorr_proof.z2 = C::ScalarField::ZERO;
    p2.o_local.o_plonk_z = C::ScalarField::ZERO;
    p2.o_right.o_pi_quotient = C::ScalarField::NEG_ONE;
    p2.o_below.o_wires = vec![];
    p2.halo_l = vec![];
    p2.halo_r[0] = AffinePoint::ZERO;
    for p in &[p0, p1, p2] {
        serde(c, "proof", p, proof_js::<C>, every, rng, out);
        serde(c, "opening", &p.o_local, |o: &OpeningSet<C::ScalarField>| json!({"os": [opening_js(o)]}), every, rng, out);
    }
    let vk = circuit.to_vk();
    for k in 0..4 {
        let mut v = vk.clone();
        if k & 1 == 1 {
            v.clear_fft_precomputation();
        }
        if k & 2 == 2 {
            v.clear_msm_precomputation();
        }
        let js = |v: &VerificationKey<C>| {
            json!({"cc": pts(&v.c_constants), "cs": pts(&v.c_s_sigmas), "n": v.degree, "npi": v.num_public_inputs,
                "off": v.num_gates_without_pis, "sec": v.security_bits,
                "pre": [v.fft_precomputation.is_some(), v.pedersen_g_msm_precomputation.is_some()]})
        };
        serde(c, "vk", &v, js, if k == 3 { every } else { 40 * every }, rng, out);
    }
}

fn main() {
    let (_, ctx) = vh::start();
    let mut rng = ChaCha8Rng::seed_from_u64(ctx.seed);
    let rng = &mut rng;
    let mut out = Out::new(&format!("{}/trace.ndjson", ctx.dir));
    let mut hd = Out::new(&format!("{}/hdr.ndjson", ctx.dir));
    let every = if ctx.thorough { 3 } else { 37 };
    let rounds = if ctx.thorough { 200 } else { 25 };
    macro_rules! hdr {
        ($t:ty) => {
            hd.rec(json!({"E": curve::<$t>(), "base": 256, "n": <$t as Curve>::BaseField::BYTES, "m": <$t as Curve>::ScalarField::BYTES}))
        };
    }
    macro_rules! real {
        ($c:expr, $t:ty) => {
            hdr!($t);
            let ps = some_points::<$t>(rng, 8);
            generic::<$t>($c, &ps, rounds, rng, &mut out);
            edges::<$t>($c, &ps, rng, &mut out);
            values::<$t>($c, &ps, every, rng, &mut out);
        };
    }
    real!(1, Tweedledee);
    real!(2, Tweedledum);
    real!(3, Pallas);
    real!(4, Vesta);
    real!(5, Bls12377);
    hdr!(E84);
    hdr!(E80);
    hdr!(E96);
    hdr!(T613);
    small::<E84>(6, &mut out);
    small::<E80>(7, &mut out);
    small::<E96>(8, &mut out);
    small::<T613>(9, &mut out);
    generic::<E84>(6, &all_points(), rounds, rng, &mut out);
    generic::<E80>(7, &all_points(), rounds, rng, &mut out);
    generic::<E96>(8, &all_points(), rounds, rng, &mut out);
    generic::<T613>(9, &all_points(), rounds, rng, &mut out);
    proofs::<Tweedledee, Tweedledum>(1, 10 * every, rng, &mut out);
    proofs::<Tweedledum, Tweedledee>(2, 10 * every, rng, &mut out);
    proofs::<Pallas, Vesta>(3, 10 * every, rng, &mut out);
    proofs::<Vesta, Pallas>(4, 10 * every, rng, &mut out);
}
