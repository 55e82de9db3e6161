//! Scalar and multi-scalar multiplication and summations (C13).
use num::BigUint;
use plonky::plonk_util::{halo_n, halo_n_mul};
use plonky::*;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use serde_json::{json, Value};
use vh::js::*;
use vh::pts::*;
use vh::toy::*;

fn scalar<C: Curve>(rng: &mut ChaCha8Rng) -> C::ScalarField {
    type F<C> = <C as Curve>::ScalarField;
    let n = order::<F<C>>();
    let one = BigUint::from(1u32);
    let bits = F::<C>::BITS;
    let v = match rng.gen_range(0, 12) {
        0 => BigUint::from(0u32),
        1 => one,
        2 => &n - 1u32 - rng.gen_range(0, 3u32),
        3 => &one << rng.gen_range(0, bits - 1),
        4 => (&one << rng.gen_range(0, bits - 1)) - 1u32,
        5 => BigUint::from(rng.gen_range(0, 40u32)),
        6 => (&n - 1u32) >> rng.gen_range(0, bits),
        7 => ((&one << (bits - 1)) - 1u32) / 3u32,
        _ => return F::<C>::rand_from_rng(rng),
    };
    from_big(&(v % &n))
}

fn pick<C: Curve>(ps: &[AffinePoint<C>], n: usize, rng: &mut ChaCha8Rng) -> Vec<AffinePoint<C>> {
    // lists with repetitions, opposites and infinity in adjacent and distant places
    let style = rng.gen_range(0, 4);
    let mut v: Vec<AffinePoint<C>> = vec![];
    for i in 0..n {
        let p = ps[rng.gen_range(0, ps.len())];
        v.push(match (style, rng.gen_range(0, 4)) {
            (0, _) => p,
            (1, 0) | (2, 0) if i > 0 => v[i - 1],
            (1, 1) if i > 0 => aneg(v[i - 1]),
            (2, 1) => AffinePoint::ZERO,
            (3, 0) if i > 1 => aneg(v[i / 2]),
            _ => p,
        });
    }
    v
}

fn sums<C: Curve>(c: usize, ps: &[AffinePoint<C>], lens: &[usize], rng: &mut ChaCha8Rng, out: &mut Out) {
    for &n in lens {
        let v = pick(ps, n, rng);
        let o = json!({"c": c, "op": "sum", "ps": pts(&v)});
        out.rec(res(o.clone(), || ppt(affine_summation_best(v.clone()))));
        out.rec(res(o.clone(), || ppt(affine_summation_pairwise(v.clone()))));
        out.rec(res(o.clone(), || ppt(affine_summation_batch_inversion(v.clone()))));
        out.rec(res(o.clone(), || ppt(v.iter().cloned().sum::<ProjectivePoint<C>>())));
        out.rec(res(o.clone(), || ppt(v.iter().map(|p| p.to_projective()).sum::<ProjectivePoint<C>>())));
    }
    for _ in 0..lens.len() / 2 {
        let k = rng.gen_range(0, 6);
        let vs: Vec<Vec<AffinePoint<C>>> = (0..k).map(|_| {
            let n = lens[rng.gen_range(0, lens.len())];
            pick(ps, n, rng)
        }).collect();
        let o = json!({"c": c, "op": "msums", "pss": vs.iter().map(|v| pts(v)).collect::<Vec<_>>()});
        let all = |r: Vec<ProjectivePoint<C>>| Value::Array(r.into_iter().map(ppt).collect());
        out.rec(res(o.clone(), || all(affine_multisummation_best(vs.clone()))));
        out.rec(res(o.clone(), || all(affine_multisummation_pairwise(vs.clone()))));
        out.rec(res(o.clone(), || all(affine_multisummation_batch_inversion(vs.clone()))));
    }
}

fn muls<C: Curve>(c: usize, a: AffinePoint<C>, s: C::ScalarField, rng: &mut ChaCha8Rng, out: &mut Out) {
    let z = C::BaseField::rand_from_rng(rng);
    let p = if z == C::BaseField::ZERO { a.to_projective() } else { rep(a, z) };
    let o = json!({"c": c, "op": "mul", "a": pt(a), "s": fe(s)});
    out.rec(res(o.clone(), || ppt(C::convert(s) * p)));
    out.rec(res(o, || ppt(p.mul_with_precomputation(s, p.mul_precompute()))));
}

fn msms<C: Curve>(c: usize, ps: &[AffinePoint<C>], lens: &[usize], ws: &[usize], rng: &mut ChaCha8Rng, out: &mut Out) {
    for (k, &n) in lens.iter().enumerate() {
        let w = ws[k % ws.len()];
        let v = pick(ps, n, rng);
        let mut ss: Vec<C::ScalarField> = (0..n).map(|_| scalar::<C>(rng)).collect();
        if n > 1 && rng.gen_range(0, 3) == 0 {
            let x = ss[0];
            ss.iter_mut().for_each(|s| *s = x);
        }
        let pv: Vec<ProjectivePoint<C>> = v
            .iter()
            .map(|&p| {
                let z = C::BaseField::rand_from_rng(rng);
                if z == C::BaseField::ZERO { p.to_projective() } else { rep(p, z) }
            })
            .collect();
        let o = json!({"c": c, "op": "msm", "ps": pts(&v), "ss": fes(&ss), "w": w});
        out.rec(res(o.clone(), || ppt(msm_parallel(&ss, &pv, w))));
        let pre = catch(|| msm_precompute(&pv, w));
        out.rec(res(o.clone(), || ppt(msm_execute(pre.as_ref().unwrap(), &ss))));
        out.rec(res(o.clone(), || ppt(msm_execute_parallel(pre.as_ref().unwrap(), &ss))));
        // a precomputation can be reused with other scalars
        let ss: Vec<C::ScalarField> = (0..n).map(|_| scalar::<C>(rng)).collect();
        let o = json!({"c": c, "op": "msm", "ps": pts(&v), "ss": fes(&ss), "w": w});
        out.rec(res(o.clone(), || ppt(msm_execute(pre.as_ref().unwrap(), &ss))));
        out.rec(res(o, || ppt(msm_execute_parallel(pre.as_ref().unwrap(), &ss))));
    }
}

fn endo<C: HaloCurve>(c: usize, ps: &[AffinePoint<C>], n: usize, rng: &mut ChaCha8Rng, out: &mut Out) {
    for k in 0..n {
        let a = ps[rng.gen_range(0, ps.len())];
        let len = if is_big::<C::ScalarField>() { [128, 64, 2, 4, 126][k % 5] } else { [2, 4, 6, 8, 10, 12][k % 6] };
        let bits: Vec<bool> = (0..len)
            .map(|_| match k % 7 {
                0 => false,
                1 => true,
                _ => rng.gen(),
            })
            .collect();
        let b: Vec<u32> = bits.iter().map(|&x| x as u32).collect();
        out.rec(res(json!({"c": c, "op": "halo_n", "bits": b}), || fe(halo_n::<C>(&bits))));
        out.rec(res(json!({"c": c, "op": "halo_n_mul", "bits": b, "a": pt(a)}), || pt(halo_n_mul(&bits, a))));
    }
}

fn main() {
    let (_, ctx) = vh::start();
    let mut rng = ChaCha8Rng::seed_from_u64(ctx.seed);
    let mut out = Out::new(&format!("{}/trace.ndjson", ctx.dir));
    let mut hd = Out::new(&format!("{}/hdr.ndjson", ctx.dir));
    hd.rec(hdr_halo::<T97>());
    hd.rec(hdr_halo::<T103>());
    hd.rec(hdr_halo::<T613>());
    hd.rec(hdr::<E84>());
    hd.rec(hdr::<E80>());
    hd.rec(hdr::<E96>());
    hd.rec(hdr_halo::<Tweedledee>());
    hd.rec(hdr_halo::<Tweedledum>());
    hd.rec(hdr_halo::<Pallas>());
    hd.rec(hdr_halo::<Vesta>());
    hd.rec(hdr::<Bls12377>());
    let t = ctx.thorough;
    let rep = if t { 12 } else { 1 };
    let lens: Vec<usize> = (0..20).chain(vec![31, 32, 33, 63, 64, 65, 138, 139, 140, 141, 142, 143, 160, 255, 281]).collect();
    let ws = [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13];
    // summations and scalars, all small cases
    macro_rules! small {
        ($c:expr, $t:ty) => {
            let ps = all_points::<$t>();
            for _ in 0..rep * 2 {
                sums::<$t>($c, &ps, &lens, &mut rng, &mut out);
                msms::<$t>($c, &ps, &(0..24).collect::<Vec<_>>(), &ws, &mut rng, &mut out);
            }
            for s in 0..order::<<$t as Curve>::ScalarField>().to_u64_digits()[0] {
                let a = ps[rng.gen_range(0, ps.len())];
                muls::<$t>($c, a, <$t as Curve>::ScalarField::from_canonical_u64(s), &mut rng, &mut out);
            }
            for &a in &ps {
                let s = scalar::<$t>(&mut rng);
                muls::<$t>($c, a, s, &mut rng, &mut out);
            }
        };
    }
    small!(1, T97);
    small!(2, T103);
    small!(4, E84);
    small!(5, E80);
    small!(6, E96);
    let ps = all_points::<T613>();
    endo::<T97>(1, &all_points(), 40 * rep, &mut rng, &mut out);
    endo::<T103>(2, &all_points(), 40 * rep, &mut rng, &mut out);
    endo::<T613>(3, &ps, 60 * rep, &mut rng, &mut out);
    macro_rules! real {
        ($c:expr, $t:ty) => {
            let ps = some_points::<$t>(&mut rng, 14);
            let l: Vec<usize> = if t { lens.clone() } else { vec![0, 1, 2, 3, 5, 8, 17, 143] };
            sums::<$t>($c, &ps, &l, &mut rng, &mut out);
            for _ in 0..rep {
                msms::<$t>($c, &ps, &[0, 1, 2, 3, 4], &[8, 11, 4, 5, 7, 1, 16], &mut rng, &mut out);
                msms::<$t>($c, &ps, &[1, 5], &[ws[rng.gen_range(0, ws.len())]], &mut rng, &mut out);
            }
            for _ in 0..14 * rep {
                let a = ps[rng.gen_range(0, ps.len())];
                let s = scalar::<$t>(&mut rng);
                muls::<$t>($c, a, s, &mut rng, &mut out);
            }
        };
    }
    real!(7, Tweedledee);
    real!(8, Tweedledum);
    real!(9, Pallas);
    real!(10, Vesta);
    real!(11, Bls12377);
    macro_rules! rendo {
        ($c:expr, $t:ty) => {
            let ps = some_points::<$t>(&mut rng, 14);
            endo::<$t>($c, &ps, 10 * rep, &mut rng, &mut out);
        };
    }
    rendo!(7, Tweedledee);
    rendo!(8, Tweedledum);
    rendo!(9, Pallas);
    rendo!(10, Vesta);
}
