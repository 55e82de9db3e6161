//! The group law in every coordinate system (C12).
use plonky::*;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use serde_json::{json, Value};
use vh::js::*;
use vh::pts::*;
use vh::toy::*;

fn ppts<C: Curve>(v: Vec<ProjectivePoint<C>>) -> Value {
    Value::Array(v.into_iter().map(ppt).collect())
}

fn rz<C: Curve>(rng: &mut ChaCha8Rng) -> C::BaseField {
    loop {
        let z = match rng.gen_range(0, 4) {
            0 => C::BaseField::ONE,
            1 => C::BaseField::NEG_ONE,
            _ => C::BaseField::rand_from_rng(rng),
        };
        if z != C::BaseField::ZERO {
            return z;
        }
    }
}

/// Random representatives of the points.
fn reps<C: Curve>(qs: &[AffinePoint<C>], rng: &mut ChaCha8Rng) -> Vec<ProjectivePoint<C>> {
    qs.iter().map(|&q| if q.zero && rng.gen() { ProjectivePoint::ZERO } else { rep(q, rz::<C>(rng)) }).collect()
}

fn run<C: Curve>(c: usize, ps: &[AffinePoint<C>], rounds: usize, rng: &mut ChaCha8Rng, out: &mut Out) {
    for &a in ps {
        for round in 0..rounds {
            let qs = ps.to_vec();
            let pr = reps(&[a], rng)[0];
            let pq = reps(&qs, rng);
            out.rec(res(json!({"c": c, "op": "padd", "a": pt(a), "qs": pts(&qs)}), || {
                ppts(pq.iter().map(|&q| pr + q).collect())
            }));
            out.rec(res(json!({"c": c, "op": "padd", "a": pt(a), "qs": pts(&qs)}), || {
                ppts(pq.iter().map(|&q| q + pr).collect())
            }));
            out.rec(res(json!({"c": c, "op": "pmadd", "a": pt(a), "qs": pts(&qs)}), || {
                ppts(qs.iter().map(|&q| pr + q).collect())
            }));
            out.rec(res(json!({"c": c, "op": "peq", "a": pt(a), "qs": pts(&qs)}), || {
                pq.iter().map(|&q| q == pr && pr == q).collect::<Vec<bool>>()
            }));
            out.rec(res(json!({"c": c, "op": "peq", "a": pt(a), "qs": pts(&qs)}), || {
                pq.iter().map(|&q| !(q != pr)).collect::<Vec<bool>>()
            }));
            out.rec(res(json!({"c": c, "op": "pdbl", "qs": pts(&qs)}), || ppts(pq.iter().map(|q| q.double()).collect())));
            out.rec(res(json!({"c": c, "op": "pneg", "qs": pts(&qs)}), || ppts(pq.iter().map(|q| q.neg()).collect())));
            out.rec(res(json!({"c": c, "op": "pneg", "qs": pts(&qs)}), || ppts(pq.iter().map(|q| -*q).collect())));
            out.rec(res(json!({"c": c, "op": "toaff", "qs": pts(&qs)}), || {
                pts(&pq.iter().map(|q| q.to_affine()).collect::<Vec<_>>())
            }));
            // batches with infinity in any place
            let mut perm: Vec<usize> = (0..qs.len()).collect();
            for i in (1..perm.len()).rev() {
                perm.swap(i, rng.gen_range(0, i + 1));
            }
            perm.truncate(rng.gen_range(0, perm.len().min(20) + 1));
            let bq: Vec<_> = perm.iter().map(|&i| qs[i]).collect();
            let br: Vec<_> = perm.iter().map(|&i| pq[i]).collect();
            out.rec(res(json!({"c": c, "op": "btoaff", "qs": pts(&bq)}), || pts(&ProjectivePoint::batch_to_affine(&br))));
            out.rec(res(json!({"c": c, "op": "btoproj", "qs": pts(&bq)}), || ppts(AffinePoint::batch_to_projective(&bq))));
            let pra: Vec<_> = br.iter().map(|_| pr).collect();
            out.rec(res(json!({"c": c, "op": "padds", "a": pt(a), "qs": pts(&bq)}), || {
                ppts(ProjectivePoint::add_slices(&pra, &br))
            }));
            if round > 0 {
                continue;
            }
            out.rec(res(json!({"c": c, "op": "aadd", "a": pt(a), "qs": pts(&qs)}), || ppts(qs.iter().map(|&q| a + q).collect())));
            out.rec(res(json!({"c": c, "op": "aeq", "a": pt(a), "qs": pts(&qs)}), || {
                qs.iter().map(|&q| q == a && !(q != a)).collect::<Vec<bool>>()
            }));
        }
    }
    out.rec(res(json!({"c": c, "op": "adbl", "qs": pts(ps)}), || pts(&ps.iter().map(|q| q.double()).collect::<Vec<_>>())));
    out.rec(res(json!({"c": c, "op": "aneg", "qs": pts(ps)}), || pts(&ps.iter().map(|q| -*q).collect::<Vec<_>>())));
    out.rec(res(json!({"c": c, "op": "toproj", "qs": pts(ps)}), || ppts(ps.iter().map(|q| q.to_projective()).collect())));
    for &a in ps.iter().filter(|a| !a.zero).take(40) {
        for &(x, y) in &[(a.x, a.y), (a.y, a.x), (a.x + C::BaseField::ONE, a.y), (a.x, a.y + C::BaseField::ONE), (C::BaseField::ZERO, C::BaseField::ZERO)] {
            out.rec(res(json!({"c": c, "op": "valid", "p": [fe(x), fe(y)]}), || AffinePoint::<C> { x, y, zero: false }.is_valid()));
            let z = rz::<C>(rng);
            out.rec(res(json!({"c": c, "op": "valid", "p": [fe(x), fe(y)]}), || {
                // projective validity is that of the affine point; constructing an invalid one is refused
                catch(|| ProjectivePoint::<C> { x: x * z, y: y * z, z, zero: false }.is_valid()).unwrap_or(false)
            }));
        }
    }
}

fn halo<C: HaloCurve>(c: usize, ps: &[AffinePoint<C>], out: &mut Out) {
    for &a in ps {
        out.rec(res(json!({"c": c, "op": "endo", "a": pt(a)}), || pt(a.endomorphism())));
    }
    params::<C>(c, true, true, out);
}

fn params<C: Curve>(c: usize, order: bool, halo: bool, out: &mut Out) {
    out.rec(json!({"c": c, "op": "params", "ok": true, "order": order, "halo": halo, "safe": C::is_safe_curve()}));
}

fn main() {
    let (_, ctx) = vh::start();
    let mut rng = ChaCha8Rng::seed_from_u64(ctx.seed);
    let mut out = Out::new(&format!("{}/trace.ndjson", ctx.dir));
    let mut hd = Out::new(&format!("{}/hdr.ndjson", ctx.dir));
    hd.rec(hdr_halo::<T97>());
    hd.rec(hdr_halo::<T103>());
    hd.rec(hdr::<E84>());
    hd.rec(hdr::<E80>());
    hd.rec(hdr::<E96>());
    hd.rec(hdr_halo::<Tweedledee>());
    hd.rec(hdr_halo::<Tweedledum>());
    hd.rec(hdr_halo::<Pallas>());
    hd.rec(hdr_halo::<Vesta>());
    hd.rec(hdr::<Bls12377>());
    let rounds = if ctx.thorough { 8 } else { 1 };
    run::<T97>(1, &all_points(), rounds, &mut rng, &mut out);
    run::<T103>(2, &all_points(), rounds, &mut rng, &mut out);
    run::<E84>(3, &all_points(), rounds, &mut rng, &mut out);
    run::<E80>(4, &all_points(), rounds, &mut rng, &mut out);
    run::<E96>(5, &all_points(), rounds, &mut rng, &mut out);
    halo::<T97>(1, &all_points(), &mut out);
    halo::<T103>(2, &all_points(), &mut out);
    let n = if ctx.thorough { 30 } else { 11 };
    macro_rules! real {
        ($c:expr, $t:ty, $f:expr) => {
            let ps = some_points::<$t>(&mut rng, n);
            run::<$t>($c, &ps, rounds, &mut rng, &mut out);
            $f($c, &ps, &mut out);
        };
    }
    real!(6, Tweedledee, halo::<Tweedledee>);
    real!(7, Tweedledum, halo::<Tweedledum>);
    real!(8, Pallas, halo::<Pallas>);
    real!(9, Vesta, halo::<Vesta>);
    real!(10, Bls12377, |c, _ps: &[AffinePoint<Bls12377>], out: &mut Out| params::<Bls12377>(c, true, false, out));
}
