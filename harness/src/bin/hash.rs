//! Rescue and the challenger (C18, C03).
use plonky::plonk_challenger::Challenger;
use plonky::*;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use rayon::prelude::*;
use serde_json::{json, Value};
use vh::js::*;
use vh::prover::rescue_js;
use vh::pts::res;
use vh::toy::*;

fn el<F: Field>(rng: &mut ChaCha8Rng) -> F {
    match rng.gen_range(0, 8) {
        0 => F::ZERO,
        1 => F::ONE,
        2 => F::NEG_ONE,
        3 => F::from_canonical_usize(rng.gen_range(0, 50)),
        _ => F::rand_from_rng(rng),
    }
}
fn els<F: Field>(n: usize, rng: &mut ChaCha8Rng) -> Vec<F> {
    (0..n).map(|_| el(rng)).collect()
}

type Hdr = Vec<Value>;
/// One parameter set; returns its index (from one).
fn setting<F: Field>(sec: usize, w: usize, hdr: &mut Hdr) -> usize {
    let mut o = rescue_js::<F>(sec, w);
    o["sec"] = json!(sec);
    hdr.push(o);
    hdr.len()
}

fn perms<F: Field>(secs: &[usize], widths: &[usize], n: usize, rng: &mut ChaCha8Rng, hdr: &mut Hdr, out: &mut Vec<Value>) {
    for &sec in secs {
        for &w in widths {
            let s = setting::<F>(sec, w, hdr);
            out.push(json!({"op": "params", "s": s, "ok": true, "F": hdr[s - 1]["F"]}));
            for k in 0..n {
                let xs = match k {
                    0 => vec![F::ZERO; w],
                    1 => (0..w).map(F::from_canonical_usize).collect(),
                    _ => els::<F>(w, rng),
                };
                out.push(res(json!({"op": "perm", "s": s, "xs": fes(&xs)}), || fes(&rescue_permutation(&xs, sec))));
            }
        }
    }
}

fn hashes<F: Field>(secs: &[usize], lens: &[usize], rng: &mut ChaCha8Rng, hdr: &mut Hdr, out: &mut Vec<Value>) {
    for &sec in secs {
        let s = setting::<F>(sec, 4, hdr);
        for &n in lens {
            let xs = els::<F>(n, rng);
            let o = |k: usize| json!({"op": "hash", "s": s, "xs": fes(&xs), "n": k});
            let k = rng.gen_range(1, 8);
            out.push(res(o(k), || fes(&rescue_sponge(xs.clone(), k, sec))));
            out.push(res(o(1), || fes(&[rescue_hash_n_to_1(xs.clone(), sec)])));
            out.push(res(o(2), || {
                let (a, b) = rescue_hash_n_to_2(xs.clone(), sec);
                fes(&[a, b])
            }));
            out.push(res(o(3), || {
                let (a, b, c) = rescue_hash_n_to_3(xs.clone(), sec);
                fes(&[a, b, c])
            }));
            if n == 1 {
                out.push(res(o(1), || fes(&[rescue_hash_1_to_1(xs[0], sec)])));
            }
            // distinct lengths with the same elements
            if n > 0 && n % 3 != 0 {
                let mut ys = xs.clone();
                ys.pop();
                out.push(res(json!({"op": "hash", "s": s, "xs": fes(&ys), "n": 2}), || fes(&rescue_sponge(ys.clone(), 2, sec))));
            }
        }
        if sec == 128 {
            // the pseudorandom generator is the hash iterated
            let x = el::<F>(rng);
            out.push(res(json!({"op": "prg", "s": s, "x": fe(x), "n": 4}), || {
                let mut g = PRFBasedPRG::seeded(RescuePrf::default(), x);
                fes(&(0..4).map(|_| g.next_field()).collect::<Vec<F>>())
            }));
        }
    }
}

/// The same functions computed by circuits.
fn circuits<C: HaloCurve>(secs: &[usize], lens: &[usize], rng: &mut ChaCha8Rng, hdr: &mut Hdr, out: &mut Vec<Value>) {
    type F<C> = <C as Curve>::ScalarField;
    for &sec in secs {
        let s = setting::<F<C>>(sec, 4, hdr);
        for &n in lens {
            let xs = els::<F<C>>(n, rng);
            let k = rng.gen_range(1, 6);
            let which = rng.gen_range(0, 5);
            let (n_out, op) = match which {
                0 => (1, "hash"),
                1 => (2, "hash"),
                2 => (3, "hash"),
                3 => (k, "hash"),
                _ => (4, "perm"),
            };
            let ys = if op == "perm" { els::<F<C>>(4, rng) } else { xs };
            // inputs which are one wire used twice, constants, or zero wires
            let style = rng.gen_range(0, 3);
            out.push(res(json!({"op": op, "s": s, "xs": fes(&ys), "n": n_out, "in": "circuit"}), || {
                let mut b = CircuitBuilder::<C>::new(sec);
                let mut w = PartialWitness::new();
                let mut ts: Vec<Target<F<C>>> = vec![];
                for (i, &y) in ys.iter().enumerate() {
                    let same = (0..i).find(|&j| ys[j] == y);
                    let t = match (style, same) {
                        (1, _) => b.constant_wire(y),
                        (2, Some(j)) => ts[j],
                        _ => {
                            let t = b.add_virtual_target();
                            w.set_target(t, y);
                            t
                        }
                    };
                    ts.push(t);
                }
                let outs = match which {
                    0 => vec![b.rescue_hash_n_to_1(&ts)],
                    1 => { let o = b.rescue_hash_n_to_2(&ts); vec![o.0, o.1] }
                    2 => { let o = b.rescue_hash_n_to_3(&ts); vec![o.0, o.1, o.2] }
                    3 => b.rescue_sponge(&ts, k),
                    _ => b.rescue_permutation(&ts),
                };
                let c = b.build();
                let w = c.generate_partial_witness(w);
                fes(&w.get_targets(&outs))
            }));
        }
    }
}

/// A history and what the challenger answers; calls are grouped at random.
fn history<F: Field, I: Curve<BaseField = F>>(h: &[(bool, F)], sec: usize, rng: &mut ChaCha8Rng) -> Vec<F> {
    let mut ch = Challenger::<F>::new(sec);
    let mut out = vec![];
    let mut i = 0;
    while i < h.len() {
        let run = h[i..].iter().take_while(|x| x.0 == h[i].0).count();
        let n = rng.gen_range(1, run + 1);
        if !h[i].0 {
            let xs: Vec<F> = h[i..i + n].iter().map(|x| x.1).collect();
            let points: Vec<AffinePoint<I>> = xs.chunks_exact(2).map(|p| {
                if p[0].is_zero() && p[1].is_zero() { AffinePoint { x: F::ONE, y: F::TWO, zero: true } } else { AffinePoint::nonzero(p[0], p[1]) }
            }).collect();
            match rng.gen_range(0, 6) {
                0 if n % 2 == 0 => ch.observe_affine_points(&points),
                1 if n == 2 => ch.observe_affine_point(points[0]),
                2 if n == 2 => {
                    let z = F::from_canonical_usize(rng.gen_range(1, 40));
                    ch.observe_proj_point(vh::pts::rep(points[0], z))
                }
                3 if n % 2 == 0 && n > 0 => {
                    let ps: Vec<_> = points.iter().map(|&p| vh::pts::rep(p, F::from_canonical_usize(rng.gen_range(1, 40)))).collect();
                    ch.observe_proj_points(&ps)
                }
                4 if n == 1 => ch.observe_element(xs[0]),
                _ => ch.observe_elements(&xs),
            }
            if rng.gen_range(0, 5) == 0 {
                ch.observe_elements(&[]);
            }
        } else {
            match n {
                1 => out.push(ch.get_challenge()),
                2 => { let c = ch.get_2_challenges(); out.extend(vec![c.0, c.1]) }
                3 => { let c = ch.get_3_challenges(); out.extend(vec![c.0, c.1, c.2]) }
                _ => out.extend(ch.get_n_challenges(n)),
            }
            if rng.gen_range(0, 5) == 0 {
                out.extend(ch.get_n_challenges(0));
            }
        }
        i += n;
    }
    out
}

fn hist_js<F: Field>(h: &[(bool, F)]) -> Value {
    Value::Array(h.iter().map(|&(c, x)| if c { json!([1]) } else { json!([0, fe(x)]) }).collect())
}

fn shape(len: usize, rng: &mut ChaCha8Rng) -> Vec<bool> {
    let mut v = vec![];
    while v.len() < len {
        let n = match rng.gen_range(0, 4) { 0 => 1, 1 => rng.gen_range(1, 4), _ => rng.gen_range(1, 9) };
        let c = rng.gen_range(0, 2) == 0;
        v.extend(vec![c; n]);
    }
    v
}

fn challengers<F: Field, I: Curve<BaseField = F>>(secs: &[usize], n: usize, exhaustive: usize, rng: &mut ChaCha8Rng, hdr: &mut Hdr, out: &mut Vec<Value>) {
    for &sec in secs {
        let s = setting::<F>(sec, 4, hdr);
        let mut shapes: Vec<Vec<bool>> = (0..n).map(|_| { let l = rng.gen_range(5, 30); shape(l, rng) }).collect();
        // every shape up to a length
        for len in 1..=exhaustive {
            for m in 0..1u32 << len {
                shapes.push((0..len).map(|i| m >> i & 1 == 1).collect());
            }
        }
        for sh in shapes {
            let h: Vec<(bool, F)> = sh.iter().map(|&c| (c, if c { F::ZERO } else { el(rng) })).collect();
            let mut hs = vec![h.clone()];
            // the same history with one observed element changed
            let obs: Vec<usize> = (0..h.len()).filter(|&i| !h[i].0).collect();
            if !obs.is_empty() {
                for _ in 0..2 {
                    let mut g = h.clone();
                    let i = obs[rng.gen_range(0, obs.len())];
                    g[i].1 = g[i].1 + if rng.gen_range(0, 2) == 0 { F::ONE } else { F::rand_from_rng(rng) };
                    if rng.gen_range(0, 2) == 0 {
                        // and a later one changed so that the sum stays
                        let j = obs[rng.gen_range(0, obs.len())];
                        let d = g[i].1 - h[i].1;
                        if j != i { g[j].1 = g[j].1 - d; }
                    }
                    hs.push(g);
                }
            }
            out.push(res(json!({"op": "hist", "s": s, "hs": hs.iter().map(|h| hist_js(h)).collect::<Vec<_>>()}), || {
                fess(&hs.iter().map(|h| history::<F, I>(h, sec, rng)).collect::<Vec<_>>())
            }));
        }
    }
}

fn main() {
    let (cmd, ctx) = vh::start();
    let deep = ctx.thorough;
    let seed = ctx.seed;
    type Job = Box<dyn Fn(&mut ChaCha8Rng, &mut Hdr, &mut Vec<Value>) + Sync + Send>;
    let mut jobs: Vec<Job> = vec![];
    macro_rules! fields { ($f:ident, $($a:expr),*) => {
        jobs.push(Box::new(move |r, h, o| $f::<TweedledeeBase>($($a),*, r, h, o)));
        jobs.push(Box::new(move |r, h, o| $f::<TweedledumBase>($($a),*, r, h, o)));
        jobs.push(Box::new(move |r, h, o| $f::<PallasBase>($($a),*, r, h, o)));
        jobs.push(Box::new(move |r, h, o| $f::<VestaBase>($($a),*, r, h, o)));
        jobs.push(Box::new(move |r, h, o| $f::<Bls12377Base>($($a),*, r, h, o)));
        jobs.push(Box::new(move |r, h, o| $f::<Bls12377Scalar>($($a),*, r, h, o)));
        jobs.push(Box::new(move |r, h, o| $f::<Fp<257>>($($a),*, r, h, o)));
        jobs.push(Box::new(move |r, h, o| $f::<Fp<12289>>($($a),*, r, h, o)));
    } }
    match cmd.as_str() {
        "c18" => {
            const SECS: &[usize] = &[0, 1, 79, 80, 81, 128, 129, 192, 256];
            let n = if deep { 12 } else { 3 };
            fields!(perms, &[128, 81], &[2, 3, 4, 5], n);
            fields!(perms, SECS, &[4], if deep { 4 } else { 2 });
            fields!(hashes, &[128], if deep { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 20, 31] } else { &[0, 1, 2, 3, 4, 5, 6, 7, 9] });
            fields!(hashes, &[0, 80, 100, 256], &[1, 5]);
            let lens: &'static [usize] = if deep { &[0, 1, 2, 3, 4, 5, 6, 7, 9, 1, 2, 3, 4, 5, 6, 11, 14] } else { &[0, 1, 2, 3, 4, 5, 6, 7] };
            macro_rules! circs { ($($c:ty),*) => { $(
                for &l in lens {
                    jobs.push(Box::new(move |r, h, o| circuits::<$c>(&[128], &[l], r, h, o)));
                }
                jobs.push(Box::new(move |r, h, o| circuits::<$c>(&[0, 96, 160], &[2, 4], r, h, o)));
            )* } }
            circs!(Tweedledee, Tweedledum, Pallas, Vesta, G12289);
        }
        "c03" => {
            macro_rules! curves { ($($c:ty),*) => { $(
                for k in 0..4 {
                    jobs.push(Box::new(move |r, h, o| challengers::<<$c as Curve>::BaseField, $c>(if k == 0 { &[128, 80] } else { &[128] }, if deep { 60 } else { 8 }, if k == 1 { if deep { 6 } else { 4 } } else { 0 }, r, h, o)));
                }
            )* } }
            curves!(Tweedledee, Tweedledum, Pallas, Vesta);
            jobs.push(Box::new(move |r, h, o| challengers::<<Bls12377 as Curve>::BaseField, Bls12377>(&[128], 10, 0, r, h, o)));
        }
        _ => vh::unknown(),
    }
    let done: Vec<(Hdr, Vec<Value>)> = jobs.par_iter().enumerate().map(|(k, j)| {
        let mut rng = ChaCha8Rng::seed_from_u64(seed * 1000 + k as u64);
        let (mut h, mut o) = (vec![], vec![]);
        j(&mut rng, &mut h, &mut o);
        (h, o)
    }).collect();
    let mut hdr = Out::new(&format!("{}/hdr.ndjson", ctx.dir));
    let mut out = Out::new(&format!("{}/trace.ndjson", ctx.dir));
    let mut base = 0;
    for (h, os) in done {
        for mut o in os {
            o["s"] = json!(o["s"].as_u64().unwrap() as usize + base);
            out.rec(o);
        }
        base += h.len();
        for x in h {
            hdr.rec(x);
        }
    }
}
