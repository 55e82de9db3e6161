//! The in-circuit challenger (C03). It is private to plonky, so its source is compiled here as a module of
//! this program, against plonky's public interface.
#![allow(unused_imports, dead_code)]
use plonky::*;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use rayon::prelude::*;
use serde_json::{json, Value};
use vh::js::*;
use vh::prover::rescue_js;
use vh::pts::res;
use vh::toy::*;

#[path = "/repo/src/plonk_challenger.rs"]
mod plonk_challenger;
use plonk_challenger::{Challenger, RecursiveChallenger};

fn histories<C: HaloCurve, I: Curve<BaseField = C::ScalarField>>(sec: usize, n: usize, rng: &mut ChaCha8Rng) -> (Value, Vec<Value>) {
    type F<C> = <C as Curve>::ScalarField;
    let mut h = rescue_js::<F<C>>(sec, 4);
    h["sec"] = json!(sec);
    let mut out = vec![];
    for _ in 0..n {
        let mut hist: Vec<(bool, F<C>)> = vec![];
        let len = rng.gen_range(3, 16);
        while hist.len() < len {
            let run = match rng.gen_range(0, 3) { 0 => 1, 1 => rng.gen_range(1, 4), _ => rng.gen_range(1, 8) };
            let c = rng.gen_range(0, 2) == 0;
            for _ in 0..run {
                let x = match rng.gen_range(0, 6) {
                    0 => F::<C>::ZERO,
                    1 => F::<C>::ONE,
                    _ => F::<C>::rand_from_rng(rng),
                };
                hist.push((c, if c { F::<C>::ZERO } else { x }));
            }
        }
        hist.push((true, F::<C>::ZERO));
        let hs = json!([hist.iter().map(|&(c, x)| if c { json!([1]) } else { json!([0, fe(x)]) }).collect::<Vec<_>>()]);
        out.push(res(json!({"op": "hist", "s": 1, "hs": hs, "in": "circuit"}), || {
            let mut b = CircuitBuilder::<C>::new(sec);
            let mut w = PartialWitness::new();
            let mut ch = RecursiveChallenger::<F<C>>::new(&mut b);
            let mut outs = vec![];
            let mut i = 0;
            while i < hist.len() {
                let run = hist[i..].iter().take_while(|x| x.0 == hist[i].0).count();
                let n = rng.gen_range(1, run + 1);
                if !hist[i].0 {
                    let ts: Vec<Target<F<C>>> = hist[i..i + n].iter().map(|x| {
                        if rng.gen_range(0, 3) == 0 {
                            b.constant_wire(x.1)
                        } else {
                            let t = b.add_virtual_target();
                            w.set_target(t, x.1);
                            t
                        }
                    }).collect();
                    let ps: Vec<AffinePointTarget<I>> = ts.chunks_exact(2).map(|p| AffinePointTarget { x: p[0], y: p[1] }).collect();
                    match rng.gen_range(0, 4) {
                        0 if n % 2 == 0 => ch.observe_affine_points(&ps),
                        1 if n == 2 => ch.observe_affine_point(ps[0]),
                        2 if n == 1 => ch.observe_element(ts[0]),
                        _ => ch.observe_elements(&ts),
                    }
                } else {
                    match n {
                        1 => outs.push(ch.get_challenge(&mut b)),
                        2 => { let c = ch.get_2_challenges(&mut b); outs.extend(vec![c.0, c.1]) }
                        3 => { let c = ch.get_3_challenges(&mut b); outs.extend(vec![c.0, c.1, c.2]) }
                        _ => outs.extend(ch.get_n_challenges(&mut b, n)),
                    }
                }
                i += n;
            }
            let c = b.build();
            let w = c.generate_partial_witness(w);
            fess(&[w.get_targets(&outs)])
        }));
    }
    (h, out)
}

fn main() {
    let (_, ctx) = vh::start();
    type Job = Box<dyn Fn(&mut ChaCha8Rng) -> (Value, Vec<Value>) + Sync + Send>;
    let mut jobs: Vec<Job> = vec![];
    let k = if ctx.thorough { 8 } else { 3 };
    for i in 0..4 {
        let sec = [128, 128, 80, 160][i];
        jobs.push(Box::new(move |r| histories::<Tweedledee, Tweedledum>(sec, k, r)));
        jobs.push(Box::new(move |r| histories::<Tweedledum, Tweedledee>(sec, k, r)));
        jobs.push(Box::new(move |r| histories::<Pallas, Vesta>(sec, k, r)));
        jobs.push(Box::new(move |r| histories::<Vesta, Pallas>(sec, k, r)));
    }
    let done: Vec<_> = jobs.par_iter().enumerate().map(|(j, f)| f(&mut ChaCha8Rng::seed_from_u64(ctx.seed * 7000 + j as u64))).collect();
    let mut hdr = Out::new(&format!("{}/hdr-circuit.ndjson", ctx.dir));
    let mut out = Out::new(&format!("{}/trace-circuit.ndjson", ctx.dir));
    for (i, (h, os)) in done.into_iter().enumerate() {
        hdr.rec(h);
        for mut o in os {
            o["s"] = json!(i + 1);
            out.rec(o);
        }
    }
}
