//! Polynomials and FFTs (C14).
use plonky::plonk_util::{eval_poly, halo_g, halo_s, powers, reduce_with_powers};
use plonky::*;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use serde_json::{json, Value};
use vh::js::*;
use vh::pts::res;
use vh::toy::Fp;

fn el<F: Field>(rng: &mut ChaCha8Rng) -> F {
    match rng.gen_range(0, 8) {
        0 => F::ZERO,
        1 => F::ONE,
        2 => F::NEG_ONE,
        _ => F::rand_from_rng(rng),
    }
}

/// Polynomials of every look: zero, constant, monomial, sparse, dense, with trailing zeros.
fn poly<F: Field>(rng: &mut ChaCha8Rng, len: usize) -> Vec<F> {
    let style = rng.gen_range(0, 8);
    let mut v: Vec<F> = (0..len)
        .map(|_| match style {
            0 => F::ZERO,
            1 | 2 => if rng.gen_range(0, 4) == 0 { el(rng) } else { F::ZERO },
            _ => el(rng),
        })
        .collect();
    match style {
        3 if len > 0 => {
            v.iter_mut().for_each(|x| *x = F::ZERO);
            v[rng.gen_range(0, len)] = F::ONE;
        }
        4 if len > 1 => {
            let k = rng.gen_range(0, len);
            v[k..].iter_mut().for_each(|x| *x = F::ZERO);
        }
        5 if len > 1 => {
            let k = rng.gen_range(0, len);
            v.iter_mut().for_each(|x| *x = F::ZERO);
            v[0] = F::ONE;
            v[k] = el(rng);
        }
        _ => (),
    }
    v
}

fn p<F: Field>(v: &[F]) -> Polynomial<F> {
    Polynomial::from_coeffs(v)
}

fn one<F: Field>(f: usize, a: &[F], rng: &mut ChaCha8Rng, out: &mut Out) {
    let x: F = el(rng);
    let o = json!({"f": f, "op": "eval", "a": fes(a), "x": fe(x)});
    out.rec(res(o.clone(), || fe(p(a).eval(x))));
    out.rec(res(o.clone(), || fe(p(a).eval_from_power(&powers(x, a.len())))));
    out.rec(res(o.clone(), || fe(eval_poly(a, x))));
    out.rec(res(o, || fe(reduce_with_powers(a, x))));
    out.rec(res(json!({"f": f, "op": "powers", "n": a.len(), "x": fe(x)}), || fes(&powers(x, a.len()))));
    if a.iter().any(|x| x.is_nonzero()) {
        out.rec(res(json!({"f": f, "op": "deg", "a": fes(a)}), || json!(p(a).degree())));
    }
    out.rec(res(json!({"f": f, "op": "lead", "a": fes(a)}), || fe(p(a).lead())));
    out.rec(res(json!({"f": f, "op": "zero", "a": fes(a)}), || json!(p(a).is_zero())));
    out.rec(res(json!({"f": f, "op": "trim", "a": fes(a)}), || {
        let mut q = p(a);
        q.trim();
        fes(q.coeffs())
    }));
    let n = a.len() + rng.gen_range(0, 4);
    out.rec(res(json!({"f": f, "op": "pad", "a": fes(a), "n": n}), || fes(p(a).padded(n).coeffs())));
    let z = a.iter().rev().take_while(|x| x.is_zero()).count();
    let n = a.len() - rng.gen_range(0, z + 1);
    out.rec(res(json!({"f": f, "op": "pad", "a": fes(a), "n": n}), || fes(p(a).padded(n).coeffs())));
}

fn two<F: Field>(f: usize, a: &[F], b: &[F], adicity: usize, out: &mut Out) {
    let o = |op: &str| json!({"f": f, "op": op, "a": fes(a), "b": fes(b)});
    out.rec(res(o("add"), || fes(p(a).add(&p(b)).coeffs())));
    out.rec(res(o("eq"), || json!(p(a) == p(b))));
    // products and quotients work on domains of this size
    if a.len() + b.len() <= 1 << adicity {
        out.rec(res(o("mul"), || fes(p(a).mul(&p(b)).coeffs())));
    }
    if b.iter().any(|x| x.is_nonzero()) {
        let qr = |(q, r): (Polynomial<F>, Polynomial<F>)| json!([fes(q.coeffs()), fes(r.coeffs())]);
        out.rec(res(o("div"), || qr(p(a).polynomial_long_division(&p(b)))));
        if 4 * a.len() <= 1 << adicity && 4 * b.len() <= 1 << adicity {
            out.rec(res(o("div"), || qr(p(a).polynomial_division(&p(b)))));
            // exact division
            let ab = p(a).mul(&p(b));
            let o = json!({"f": f, "op": "div", "a": fes(ab.coeffs()), "b": fes(b)});
            out.rec(res(o.clone(), || qr(ab.polynomial_division(&p(b)))));
            out.rec(res(o, || qr(ab.polynomial_long_division(&p(b)))));
        }
    }
}

fn transforms<F: Field>(f: usize, len: usize, rng: &mut ChaCha8Rng, out: &mut Out) {
    let n = len.next_power_of_two();
    let k = n.trailing_zeros() as usize;
    let w = F::primitive_root_of_unity(k);
    let a: Vec<F> = poly(rng, len);
    let o = json!({"f": f, "op": "fft", "a": fes(&a), "n": n, "w": fe(w)});
    out.rec(res(o.clone(), || fes(&fft(&a))));
    let pre = fft_precompute::<F>(len);
    out.rec(res(json!({"f": f, "op": "size", "n": n}), || json!(pre.size())));
    out.rec(res(o.clone(), || fes(&fft_with_precomputation(&a, &pre))));
    out.rec(res(o, || fes(&p(&a).eval_domain(&pre))));
    if n == len {
        let o = json!({"f": f, "op": "fft", "a": fes(&a), "n": n, "w": fe(w)});
        out.rec(res(o, || fes(&fft_with_precomputation_power_of_2(&a, &pre))));
        let o = json!({"f": f, "op": "ifft", "a": fes(&a), "w": fe(w)});
        out.rec(res(o.clone(), || fes(&ifft_with_precomputation_power_of_2(&a, &pre))));
        out.rec(res(o, || fes(Polynomial::from_evaluations(&a, &pre).coeffs())));
        // a polynomial shorter than the domain
        let m = rng.gen_range(0, n + 1);
        let o = json!({"f": f, "op": "fft", "a": fes(&a[..m]), "n": n, "w": fe(w)});
        out.rec(res(o, || fes(&p(&a[..m]).eval_domain(&pre))));
    }
}

fn zh<F: Field>(f: usize, len: usize, n: usize, rng: &mut ChaCha8Rng, out: &mut Out) {
    let q: Vec<F> = poly(rng, len);
    let mut a = vec![F::ZERO; q.len() + n + rng.gen_range(0, 4)];
    for (i, &c) in q.iter().enumerate() {
        a[i] = a[i] - c;
        a[i + n] = a[i + n] + c;
    }
    let r = res(json!({"f": f, "op": "divzh", "a": fes(&a), "n": n}), || fes(p(&a).divide_by_z_h(n).coeffs()));
    out.rec(r);
}

fn halo<F: Field>(f: usize, k: usize, rng: &mut ChaCha8Rng, out: &mut Out) {
    let us: Vec<F> = (0..k)
        .map(|_| loop {
            let u: F = el(rng);
            if u.is_nonzero() {
                break u;
            }
        })
        .collect();
    out.rec(res(json!({"f": f, "op": "halo_s", "us": fes(&us)}), || fes(&halo_s(&us))));
    let x: F = el(rng);
    out.rec(res(json!({"f": f, "op": "halo_g", "us": fes(&us), "x": fe(x)}), || fe(halo_g(x, &us))));
}

fn all<F: Field>(f: usize, max: usize, big: &[usize], reps: usize, rng: &mut ChaCha8Rng, hd: &mut Out, out: &mut Out) {
    hd.rec(json!({"F": field::<F>(), "name": std::any::type_name::<F>()}));
    for _ in 0..reps {
        for n in 0..=max {
            let a = poly::<F>(rng, n);
            one(f, &a, rng, out);
            let m = rng.gen_range(0, max + 1);
            for b in [poly::<F>(rng, m), poly::<F>(rng, n), poly::<F>(rng, 3), a.clone(), a.iter().copied().chain(vec![F::ZERO; 2]).collect()].iter() {
                two(f, &a, b, F::TWO_ADICITY, out);
                two(f, b, &a, F::TWO_ADICITY, out);
            }
            if n > 0 && n.next_power_of_two() <= 1 << F::TWO_ADICITY {
                transforms::<F>(f, n, rng, out);
            }
            for k in 0..6 {
                if (n + (1 << k)).next_power_of_two() <= 1 << F::TWO_ADICITY {
                    zh::<F>(f, n, 1 << k, rng, out);
                }
            }
        }
        for &n in big {
            let b = poly::<F>(rng, n);
            if n.next_power_of_two() <= 1 << F::TWO_ADICITY {
                transforms::<F>(f, n, rng, out);
                if n <= 256 {
                    let a = poly::<F>(rng, n / 2 + 1);
                    two(f, &a, &b, F::TWO_ADICITY, out);
                    two(f, &b, &a, F::TWO_ADICITY, out);
                }
            }
        }
        for k in 0..8 {
            halo::<F>(f, k, rng, out);
        }
    }
}

/// All polynomials of a small field and degree.
fn exhaustive<F: Field>(f: usize, p: u64, la: u32, lb: u32, out: &mut Out) {
    let dig = |mut n: u64, l: u32| -> Vec<F> {
        (0..l)
            .map(|_| {
                let d = F::from_canonical_u64(n % p);
                n /= p;
                d
            })
            .collect()
    };
    for x in 0..p.pow(la) {
        for y in 0..p.pow(lb) {
            two(f, &dig(x, la), &dig(y, lb), F::TWO_ADICITY, out);
        }
    }
}

fn main() {
    let (_, ctx) = vh::start();
    let mut rng = ChaCha8Rng::seed_from_u64(ctx.seed);
    let rng = &mut rng;
    let mut out = Out::new(&format!("{}/trace.ndjson", ctx.dir));
    let mut hd = Out::new(&format!("{}/hdr.ndjson", ctx.dir));
    let t = ctx.thorough;
    let _: Value = json!(0);
    all::<Fp<12289>>(1, 24, &[31, 32, 33, 64, 100, 128, 200, 256, 512, 1024, 4096], if t { 30 } else { 3 }, rng, &mut hd, &mut out);
    all::<Fp<97>>(2, 16, &[31, 32], if t { 30 } else { 3 }, rng, &mut hd, &mut out);
    all::<TweedledeeBase>(3, 12, &[16, 33, 64, 100, 128], if t { 12 } else { 1 }, rng, &mut hd, &mut out);
    all::<TweedledumBase>(4, 12, &[16, 33, 64], if t { 12 } else { 1 }, rng, &mut hd, &mut out);
    all::<PallasBase>(5, 8, &[16, 64], if t { 12 } else { 1 }, rng, &mut hd, &mut out);
    all::<VestaBase>(6, 8, &[16, 64], if t { 12 } else { 1 }, rng, &mut hd, &mut out);
    all::<Bls12377Scalar>(7, 8, &[16, 64], if t { 12 } else { 1 }, rng, &mut hd, &mut out);
    all::<Bls12377Base>(8, 8, &[16, 64], if t { 12 } else { 1 }, rng, &mut hd, &mut out);
    // every dividend and divisor with coefficients 0, 1, 2 (the largest patterns of zeros)
    hd.rec(json!({"F": field::<Fp<97>>()}));
    exhaustive::<Fp<97>>(9, if t { 3 } else { 2 }, 5, 4, &mut out);
    exhaustive::<Fp<97>>(9, 2, 7, 4, &mut out);
}
