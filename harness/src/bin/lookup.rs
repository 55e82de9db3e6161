//! The lookup argument (C17).
use plonky::halo::batch_opening_proof;
use plonky::plonk_challenger::Challenger;
use plonky::plonk_util::reduce_with_powers;
use plonky::*;
use plookup::plookup::prove;
use plookup::table::Table;
use plookup::verifier::verify;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use rayon::prelude::*;
use serde_json::{json, Value};
use vh::js::*;
use vh::prover::{rescue_js, setting, SEC};
use vh::Ctx;

type Sf<C> = <C as Curve>::ScalarField;
type Job = Box<dyn Fn(&mut ChaCha8Rng) -> Vec<Value> + Send + Sync>;

macro_rules! op_js {
    ($o:expr) => {
        json!([fe($o.local), fe($o.right)])
    };
}
macro_rules! pf_js {
    ($p:expr) => {
        json!({"cs": pts(&[$p.c_f, $p.c_t, $p.c_h1, $p.c_h2, $p.c_z, $p.c_quotient]),
            "os": [op_js!($p.openings.f), op_js!($p.openings.t), op_js!($p.openings.h1), op_js!($p.openings.h2), op_js!($p.openings.z), op_js!($p.openings.quotient)],
            "L": pts(&$p.halo_proof.halo_l), "R": pts(&$p.halo_proof.halo_r), "G": pt($p.halo_proof.halo_g),
            "sr": pt($p.halo_proof.schnorr_proof.r), "z1": fe($p.halo_proof.schnorr_proof.z1), "z2": fe($p.halo_proof.schnorr_proof.z2),
            "n": if $p.n < 1 << 30 { $p.n } else { 1 << 30 }})
    };
}
/// The verdict on a proof and its challenges.
macro_rules! verify_rec {
    ($C:ty, $c:expr, $t:expr, $p:expr, $what:expr) => {{
        let r = catch(|| verify::<$C>($t, $p));
        let ch = catch(|| $p.get_challenges());
        let mut o = json!({"op": "verify", "c": $c, "t": fes($t), "pf": pf_js!($p), "what": $what});
        match r {
            Ok(Ok(())) => o["res"] = json!("accept"),
            Ok(Err(e)) => { o["res"] = json!("reject"); o["msg"] = json!(e.to_string()); }
            Err(e) => { o["res"] = json!("panic"); o["msg"] = json!(e); }
        }
        o["ch"] = match ch {
            Ok(Ok(x)) => json!({"ok": true, "panic": false, "beta": fe(x.beta), "gamma": fe(x.gamma), "alpha": fe(x.alpha), "zeta": fe(x.zeta), "v": fe(x.v),
                "u": fe(x.u), "us": fe(x.u_scaling), "rs": fes(&x.halo_us), "sch": fe(x.schnorr_challenge)}),
            Ok(Err(_)) => json!({"ok": false, "panic": false, "rs": []}),
            Err(_) => json!({"ok": false, "panic": true, "rs": []}),
        };
        o
    }};
}

/// Prove honestly; a refusal is an observation.
macro_rules! prove_rec {
    ($C:ty, $c:expr, $f:expr, $t:expr, $out:expr) => {{
        let r = catch(|| prove::<$C>($f, $t));
        let (res, msg, p) = match r {
            Ok(Ok(p)) => ("ok", String::new(), Some(p)),
            Ok(Err(e)) => ("refused", e.to_string(), None),
            Err(e) => ("panic", e, None),
        };
        $out.push(json!({"op": "prove", "c": $c, "f": fes($f), "t": fes($t), "res": res, "msg": msg}));
        p
    }};
}

/// Fixes the type of a closure's first argument, which has no name here.
fn pin<'a, P, F: Field, G: Fn(&P, &[F], String) -> Value + 'a>(_: &P, g: G) -> Box<dyn Fn(&P, &[F], String) -> Value + 'a>
where P: 'a {
    Box::new(g)
}

/// A table of some style and values from it.
fn instance<F: Field>(nt: usize, nf: usize, style: usize, rng: &mut ChaCha8Rng) -> (Vec<F>, Vec<F>) {
    let mut t: Vec<F> = match style {
        0 => (0..nt).map(|_| F::rand_from_rng(rng)).collect(),
        1 => (0..nt).map(F::from_canonical_usize).collect(),
        // with repetitions, next to each other and not
        2 => {
            let k = (nt + 1) / 2;
            let v: Vec<F> = (0..k).map(|_| F::rand_from_rng(rng)).collect();
            (0..nt).map(|_| v[rng.gen_range(0, k)]).collect()
        }
        // zero and values near zero
        3 => (0..nt).map(|i| if i % 2 == 0 { F::from_canonical_usize(i / 2) } else { F::NEG_ONE - F::from_canonical_usize(i / 2) }).collect(),
        _ => vec![F::rand_from_rng(rng); nt],
    };
    if rng.gen() {
        t.shuffle(rng);
    }
    let pool: Vec<F> = match rng.gen_range(0, 3) {
        0 => t.clone(),
        1 => vec![t[rng.gen_range(0, nt)]],
        _ => t[..rng.gen_range(1, nt + 1)].to_vec(),
    };
    let f = (0..nf).map(|_| pool[rng.gen_range(0, pool.len())]).collect();
    (f, t)
}

fn honest<C: HaloCurve>(c: usize, nt: usize, nf: usize, style: usize, rng: &mut ChaCha8Rng) -> Vec<Value> {
    let mut out = vec![];
    let (f, t) = instance::<Sf<C>>(nt, nf, style, rng);
    if let Some(p) = prove_rec!(C, c, &f, &t, out) {
        let rec = pin(&p, |p, t: &[Sf<C>], what| verify_rec!(C, c, t, p, what));
        out.push(rec(&p, &t, "honest".into()));
        // the same set written differently, or another one
        if rng.gen() {
            let mut t2 = t.clone();
            t2.push(t[t.len() - 1]);
            out.push(rec(&p, &t2, "last element repeated".into()));
        }
        let mut t3 = t.clone();
        let k = rng.gen_range(0, t.len());
        t3[k] = t3[k] + Sf::<C>::ONE;
        out.push(rec(&p, &t3, "other table".into()));
    }
    // a value outside, anywhere
    if nf > 0 {
        let mut g = f.clone();
        let k = rng.gen_range(0, nf);
        g[k] = match rng.gen_range(0, 3) {
            0 => g[k] + Sf::<C>::ONE,
            1 => Sf::<C>::ZERO,
            _ => Sf::<C>::rand_from_rng(rng),
        };
        let _ = prove_rec!(C, c, &g, &t, out).map(|p| { let rec = pin(&p, |p, t: &[Sf<C>], what| verify_rec!(C, c, t, p, what)); out.push(rec(&p, &t, "honest".into())) });
    }
    out
}

fn mutate<C: HaloCurve>(c: usize, nt: usize, nf: usize, all: bool, rng: &mut ChaCha8Rng) -> Vec<Value> {
    let mut out = vec![];
    let (f, t) = instance::<Sf<C>>(nt, nf, 0, rng);
    let mut p = match prove_rec!(C, c, &f, &t, out) { Some(p) => p, None => return out };
    let q = match prove_rec!(C, c, &f, &t, out) { Some(p) => p, None => return out };
    let rec = pin(&p, |p, t: &[Sf<C>], what| verify_rec!(C, c, t, p, what));
    macro_rules! with {
        ($place:expr, $new:expr, $what:expr) => {{
            let old = $place.clone();
            $place = $new;
            out.push(rec(&p, &t, $what.to_string()));
            $place = old;
        }};
    }
    let any = blake_hash_usize_to_curve::<C>(rng.gen_range(100, 1000));
    let off = |a: AffinePoint<C>| AffinePoint::<C> { x: a.x, y: a.y + C::BaseField::ONE, zero: false };
    macro_rules! point {
        ($place:expr, $other:expr, $what:expr) => {{
            let mut news = vec![($other, "from another proof"), (off($place), "off the curve"), (any, "another point"), (-$place, "negated"), (AffinePoint::<C>::ZERO, "infinity")];
            if !all {
                let k = rng.gen_range(0, 4);
                news = vec![news[k].clone(), news[(k + 1) % 5].clone()];
            }
            for (x, w) in news {
                if x != $place {
                    with!($place, x, format!("{} {}", $what, w));
                }
            }
        }};
    }
    macro_rules! scalar {
        ($place:expr, $other:expr, $what:expr) => {{
            let mut news = vec![($other, "from another proof"), ($place + Sf::<C>::ONE, "plus one"), (Sf::<C>::ZERO, "zero"), (-$place, "negated")];
            if !all {
                let k = rng.gen_range(0, 4);
                news = vec![news[k].clone()];
            }
            for (x, w) in news {
                if x != $place {
                    with!($place, x, format!("{} {}", $what, w));
                }
            }
        }};
    }
    point!(p.c_f, q.c_f, "c_f");
    point!(p.c_t, p.c_f, "c_t");
    point!(p.c_h1, q.c_h1, "c_h1");
    point!(p.c_h2, q.c_h2, "c_h2");
    point!(p.c_z, q.c_z, "c_z");
    point!(p.c_quotient, q.c_quotient, "c_quotient");
    macro_rules! open {
        ($($m:ident),*) => { $(
            scalar!(p.openings.$m.local, q.openings.$m.local, concat!(stringify!($m), " local"));
            scalar!(p.openings.$m.right, q.openings.$m.right, concat!(stringify!($m), " right"));
        )* };
    }
    open!(f, t, h1, h2, z, quotient);
    for k in 0..p.halo_proof.halo_l.len() {
        point!(p.halo_proof.halo_l[k], q.halo_proof.halo_l[k], "l");
        point!(p.halo_proof.halo_r[k], q.halo_proof.halo_r[k], "r");
    }
    point!(p.halo_proof.halo_g, q.halo_proof.halo_g, "g");
    point!(p.halo_proof.schnorr_proof.r, q.halo_proof.schnorr_proof.r, "schnorr r");
    scalar!(p.halo_proof.schnorr_proof.z1, q.halo_proof.schnorr_proof.z1, "z1");
    scalar!(p.halo_proof.schnorr_proof.z2, q.halo_proof.schnorr_proof.z2, "z2");
    // the shape
    for n in vec![0, 1, p.n + 1, p.n - 1, 2 * p.n + 1, p.n / 2, usize::MAX, (1 << 40) - 1, 4 * p.n + 3] {
        if n != p.n {
            with!(p.n, n, "n");
        }
    }
    let (l, r) = (p.halo_proof.halo_l.clone(), p.halo_proof.halo_r.clone());
    for (a, b) in vec![(1, 0), (0, 1), (1, 1)] {
        let cut = |v: &Vec<AffinePoint<C>>, k: usize| v[..v.len() - k].to_vec();
        with!(p.halo_proof.halo_l, cut(&l, a), "l shorter");
        let (x, y) = (cut(&l, a), cut(&r, b));
        p.halo_proof.halo_r = y;
        with!(p.halo_proof.halo_l, x, "rounds missing");
        p.halo_proof.halo_r = r.clone();
        let ext = |v: &Vec<AffinePoint<C>>, k: usize| { let mut v = v.clone(); if k > 0 { v.push(any) }; v };
        let (x, y) = (ext(&l, a), ext(&r, b));
        p.halo_proof.halo_r = y;
        with!(p.halo_proof.halo_l, x, "rounds added");
        p.halo_proof.halo_r = r.clone();
    }
    with!(p.halo_proof.halo_l, vec![], "no l");
    // a bigger domain, with rounds to match
    let n = p.n;
    p.n = 2 * n + 1;
    p.halo_proof.halo_r.push(any);
    let mut l2 = l.clone();
    l2.push(any);
    with!(p.halo_proof.halo_l, l2, "n and rounds");
    p.n = n;
    p.halo_proof.halo_r = r;
    // tables
    let tables: Vec<Vec<Sf<C>>> = {
        let mut v = vec![vec![], t[..nt - 1].to_vec(), f.clone()];
        let mut x = t.clone();
        x.reverse();
        v.push(x);
        let mut x = t.clone();
        x.extend(vec![Sf::<C>::ZERO; p.n + 1]);
        v.push(x);
        v.push([&t[..], &vec![t[nt - 1]; p.n + 1 - nt]].concat());
        v.push([&t[..], &vec![Sf::<C>::ZERO; p.n + 1 - nt]].concat());
        v
    };
    for x in tables {
        out.push(rec(&p, &x, "table".into()));
    }
    out.push(rec(&p, &t, "honest".into()));
    out
}

/// Messages of a prover which does as it likes.
#[derive(Clone, Copy, PartialEq)]
enum Cheat {
    None,
    /// Leave a term out of the quotient.
    Drop(usize),
    /// Adjust the quotient's opening so that the identity holds.
    FixQuotient,
    /// Adjust an opening so that the identity holds without it being the polynomial's value.
    FixZ,
    /// Commit to the values as the table.
    OwnTable,
    /// No blinding (still a proof).
    Plain,
}

fn cheat<C: HaloCurve>(c: usize, nt: usize, nf: usize, inside: bool, how: Cheat, rng: &mut ChaCha8Rng) -> Vec<Value> {
    let (zero, one) = (Sf::<C>::ZERO, Sf::<C>::ONE);
    let mut out = vec![];
    let (mut f, t) = instance::<Sf<C>>(nt, nf, 0, rng);
    let mut p = match prove_rec!(C, c, &f, &t, out) { Some(p) => p, None => return out };
    if !inside {
        let k = rng.gen_range(0, nf);
        f[k] = Sf::<C>::rand_from_rng(rng);
    }
    let n = p.n;
    let m = n + 1;
    let last = t[nt - 1];
    let real_t = [&t[..], &vec![last; m - nt]].concat();
    let fp = [&f[..], &vec![last; n - nf]].concat();
    let tp = if how == Cheat::OwnTable { [&fp[..], &[last]].concat() } else { real_t.clone() };
    // values in the order of the table, strangers at the end
    let mut s: Vec<Sf<C>> = vec![];
    for (i, &x) in tp.iter().enumerate() {
        s.push(x);
        if !tp[..i].contains(&x) {
            s.extend(fp.iter().filter(|&&y| y == x));
        }
    }
    s.extend(fp.iter().filter(|&y| !tp.contains(y)));
    let pre = fft_precompute(m);
    let poly = |v: &[Sf<C>]| Polynomial::from_evaluations(v, &pre);
    let gs: Vec<_> = (0..2 * m).map(blake_hash_usize_to_curve::<C>).collect();
    let h = blake_hash_usize_to_curve::<C>(2 * m);
    let u_curve = blake_hash_usize_to_curve::<C>(2 * m + 1);
    let msm = msm_precompute(&AffinePoint::batch_to_projective(&gs), 8);
    let commit = |x: &Polynomial<Sf<C>>, b: bool| PolynomialCommitment::coeffs_to_commitment(&x.padded(2 * m).coeffs(), &msm, h, b && how != Cheat::Plain);
    let mut f_eval = fp.clone();
    f_eval.push(zero);
    let polys0 = vec![poly(&f_eval), poly(&tp), poly(&s[..m]), poly(&s[n..])];
    let cs0: Vec<_> = polys0.iter().enumerate().map(|(i, x)| commit(x, i != 1)).collect();
    let bf = |x: Sf<C>| C::try_convert_s2b(x).unwrap();
    let sf = |x: C::BaseField| C::try_convert_b2s(x).unwrap();
    let mut ch = Challenger::<C::BaseField>::new(SEC);
    cs0.iter().for_each(|x| ch.observe_affine_point(x.to_affine()));
    let (beta, gamma) = (sf(ch.get_challenge()), sf(ch.get_challenge()));
    let b1 = beta + one;
    let gb = gamma * b1;
    let mut z = vec![one];
    for i in 0..n {
        let num = b1 * (gamma + fp[i]) * (gb + tp[i] + beta * tp[i + 1]);
        let den = (gb + s[i] + beta * s[i + 1]) * (gb + s[n + i] + beta * s[n + i + 1]);
        z.push(z[i] * num / den);
    }
    if matches!(how, Cheat::None | Cheat::Plain) {
        z[n] = one;
    }
    let z_poly = poly(&z);
    let c_z = commit(&z_poly, true);
    ch.observe_affine_point(c_z.to_affine());
    let alpha = sf(ch.get_challenge());
    // the quotient, on a domain four times as large
    let pre4 = fft_precompute(4 * m);
    let w4 = Sf::<C>::primitive_root_of_unity((4 * m).trailing_zeros() as usize);
    let dom = Sf::<C>::cyclic_subgroup_known_order(w4, 4 * m);
    let root = w4.exp_usize(4);
    let mut ps = polys0.clone();
    ps.push(z_poly.clone());
    let e4: Vec<Vec<Sf<C>>> = ps.iter().map(|x| x.eval_domain(&pre4)).collect();
    let basis = |i: usize, x: Sf<C>| {
        let g = root.exp_usize(i);
        if x == g { one } else { g * (x.exp_usize(m) - one) / (Sf::<C>::from_canonical_usize(m) * (x - g)) }
    };
    let terms = |x: Sf<C>, a: &[Sf<C>], b: &[Sf<C>]| -> Vec<Sf<C>> {
        vec![
            basis(0, x) * (a[4] - one),
            (x - root.exp_usize(n)) * (a[4] * b1 * (gamma + a[0]) * (gb + a[1] + beta * b[1]) - b[4] * (gb + a[2] + beta * b[2]) * (gb + a[3] + beta * b[3])),
            basis(n, x) * (a[2] - b[3]),
            basis(n, x) * (a[4] - one),
        ]
    };
    let vals: Vec<Sf<C>> = (0..4 * m).map(|i| {
        let at = |k: usize| e4.iter().map(|v| v[(i + k) % (4 * m)]).collect::<Vec<_>>();
        let mut v = terms(dom[i], &at(0), &at(4));
        if let Cheat::Drop(k) = how {
            v[k] = zero;
        }
        reduce_with_powers(&v, alpha)
    }).collect();
    let v = Polynomial::from_evaluations(&vals, &pre4);
    let vc = v.padded(4 * m).coeffs().to_vec();
    let mut qc = vec![zero; 4 * m];
    for i in (0..3 * m).rev() {
        qc[i] = vc[i + m] + qc[i + m];
    }
    let q_poly = Polynomial::from(qc[..2 * m].to_vec());
    let c_q = commit(&q_poly, true);
    ch.observe_affine_point(c_q.to_affine());
    let zeta = sf(ch.get_challenge());
    ps.push(q_poly);
    let ev = |x: &Polynomial<Sf<C>>, a: Sf<C>| reduce_with_powers(x.coeffs(), a);
    let mut os: Vec<[Sf<C>; 2]> = ps.iter().map(|x| [ev(x, zeta), ev(x, zeta * root)]).collect();
    let col = |k: usize, os: &[[Sf<C>; 2]]| os.iter().map(|o| o[k]).collect::<Vec<_>>();
    let value = |os: &[[Sf<C>; 2]]| reduce_with_powers(&terms(zeta, &col(0, os), &col(1, os)), alpha) / (zeta.exp_usize(m) - one);
    match how {
        Cheat::FixQuotient => os[5][0] = value(&os),
        Cheat::FixZ => {
            // the identity is linear in the value of z at the second point
            let a = { os[4][1] = zero; value(&os) - os[5][0] };
            let b = { os[4][1] = one; value(&os) - os[5][0] };
            os[4][1] = zero - a / (b - a);
        }
        _ => (),
    }
    for o in &os {
        o.iter().for_each(|&x| ch.observe_element(bf(x)));
    }
    let (v, u, us) = (sf(ch.get_challenge()), sf(ch.get_challenge()), sf(ch.get_challenge()));
    let mut cs = cs0;
    cs.push(c_z);
    cs.push(c_q);
    let coeffs: Vec<Vec<Sf<C>>> = ps.iter().map(|x| x.padded(2 * m).coeffs().to_vec()).collect();
    let op = catch(|| batch_opening_proof(&coeffs.iter().map(|x| &x[..]).collect::<Vec<_>>(), &cs, &[zeta, zeta * root], &gs, h.to_projective(), u_curve, u, v, us, 2 * m, SEC, &mut ch));
    let op = match op { Ok(Ok(x)) => x, _ => { out.push(json!({"op": "harness failed"})); return out } };
    let a: Vec<AffinePoint<C>> = cs.iter().map(|x| x.to_affine()).collect();
    p.c_f = a[0];
    p.c_t = a[1];
    p.c_h1 = a[2];
    p.c_h2 = a[3];
    p.c_z = a[4];
    p.c_quotient = a[5];
    macro_rules! set {
        ($($m:ident $i:expr),*) => { $( p.openings.$m.local = os[$i][0]; p.openings.$m.right = os[$i][1]; )* };
    }
    set!(f 0, t 1, h1 2, h2 3, z 4, quotient 5);
    p.halo_proof = op;
    let mut o = verify_rec!(C, c, &t, &p, format!("prover {}", match how {
        Cheat::None => "honest".to_string(), Cheat::Drop(k) => format!("leaves out term {}", k), Cheat::FixQuotient => "adjusts the quotient's opening".to_string(),
        Cheat::FixZ => "adjusts an opening of z".to_string(), Cheat::OwnTable => "uses its own table".to_string(), Cheat::Plain => "without blinding".to_string() }));
    o["f"] = fes(&f);
    if inside && matches!(how, Cheat::None | Cheat::Plain | Cheat::FixQuotient | Cheat::FixZ) {
        o["want"] = json!("accept");
    }
    out.push(o);
    out
}

fn func<F: Field>(a: &[F]) -> F {
    let mut s = F::ZERO;
    let mut p = F::ONE;
    for (i, &x) in a.iter().enumerate() {
        s = s + F::from_canonical_usize(i + 1) * x * x;
        p = p * x;
    }
    s + p
}

fn tables<C: HaloCurve>(c: usize, rng: &mut ChaCha8Rng) -> Vec<Value> {
    type F<C> = Sf<C>;
    let mut out = vec![];
    let rows = |v: &Vec<Vec<F<C>>>| fess(v);
    macro_rules! one {
        ($N:expr, $M:expr) => {{
            let h = rng.gen_range(1, 6);
            let mut dom: Vec<[F<C>; $M]> = vec![];
            for _ in 0..h {
                let mut a = [F::<C>::ZERO; $M];
                a.iter_mut().for_each(|x| *x = F::<C>::from_canonical_usize(rng.gen_range(0, 3)));
                dom.push(a);
            }
            let f = |a: [F<C>; $M]| func(&a);
            let t = Table::<F<C>, $N>::from_function(&f, &dom);
            out.push(json!({"op": "rows", "c": c, "dom": rows(&dom.iter().map(|a| a.to_vec()).collect()), "r": rows(&t.0.iter().map(|a| a.to_vec()).collect())}));
            let axis: Vec<F<C>> = (0..rng.gen_range(1, 4)).map(|_| F::<C>::from_canonical_usize(rng.gen_range(0, 9))).collect();
            let t = Table::<F<C>, $N>::from_function_cartesian(&f, &axis);
            out.push(json!({"op": "cartesian", "c": c, "m": $M, "axis": fes(&axis), "r": rows(&t.0.iter().map(|a| a.to_vec()).collect())}));
            let vec = t.to_vec();
            let all: Vec<Vec<F<C>>> = t.0.iter().map(|a| a.to_vec()).collect();
            out.push(json!({"op": "reduce", "c": c, "rows": rows(&all), "r": fes(&vec)}));
            // by rows and by columns, a right witness and a wrong one
            if t.0.len() <= 16 {
                let k = rng.gen_range(1, 6);
                for wrong in 0..3 {
                    let mut w: Vec<[F<C>; $N]> = (0..k).map(|_| t.0[rng.gen_range(0, t.0.len())]).collect();
                    if wrong > 0 {
                        let (i, j) = (rng.gen_range(0, k), rng.gen_range(0, $N));
                        w[i][j] = w[i][j] + F::<C>::ONE;
                        if wrong > 1 {
                            w[i][j] = t.0[rng.gen_range(0, t.0.len())][(j + 1) % $N];
                        }
                    }
                    let mut cols: [Vec<F<C>>; $N] = Default::default();
                    for a in &w {
                        (0..$N).for_each(|j| cols[j].push(a[j]));
                    }
                    let wt = Table::<F<C>, $N>(w.clone());
                    for by_row in vec![true, false] {
                        let res = match catch(|| if by_row { t.prove_row::<C>(&wt) } else { t.prove_column::<C>(&cols) }) {
                            Ok(Ok(p)) => match catch(|| t.verify(&p)) { Ok(Ok(())) => "accept", Ok(Err(_)) => "reject", Err(_) => "panic" },
                            Ok(Err(_)) => "refused",
                            Err(_) => "panic",
                        };
                        out.push(json!({"op": "lookup", "c": c, "rows": rows(&all), "w": rows(&w.iter().map(|a| a.to_vec()).collect()), "res": res}));
                    }
                }
            }
        }};
    }
    one!(2, 1);
    one!(3, 2);
    one!(4, 3);
    out
}

fn c17<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(c: usize, ctx: &Ctx) -> (Value, Vec<Value>) {
    let mut jobs: Vec<Job> = vec![];
    let f = if ctx.thorough { 4 } else { 1 };
    let top = if ctx.thorough { 18 } else { 9 };
    // every pair of lengths on one curve, some on the others
    for nt in 1..top {
        for nf in 0..top {
            let style = nt + 2 * nf + c;
            if c == 1 || style % 4 == 0 || nf.is_power_of_two() && nt == 2 {
                jobs.push(Box::new(move |r| honest::<C>(c, nt, nf, style % 5, r)));
                if nt == 3 || ctx.thorough {
                    jobs.push(Box::new(move |r| honest::<C>(c, nt, nf, (style + 3) % 5, r)));
                }
            }
        }
    }
    for k in 0..3 * f {
        jobs.push(Box::new(move |r| honest::<C>(c, 15 + k, 16 - k % 3, k % 5, r)));
        jobs.push(Box::new(move |r| honest::<C>(c, 4, 2 + k, 2, r)));
        jobs.push(Box::new(move |r| tables::<C>(c, r)));
    }
    let thorough = ctx.thorough;
    for k in 0..f {
        jobs.push(Box::new(move |r| mutate::<C>(c, 2 + k, 1 + 2 * k, thorough || c == 1, r)));
        jobs.push(Box::new(move |r| mutate::<C>(c, 3, 5 + k, thorough, r)));
    }
    for k in 0..f {
        for &inside in &[true, false] {
            for how in vec![Cheat::None, Cheat::Drop(0), Cheat::Drop(1), Cheat::Drop(2), Cheat::Drop(3), Cheat::FixQuotient, Cheat::FixZ, Cheat::OwnTable, Cheat::Plain] {
                jobs.push(Box::new(move |r| cheat::<C>(c, 2 + k, 3 - k % 2, inside, how, r)));
            }
        }
    }
    let mut rng = ChaCha8Rng::seed_from_u64(ctx.seed * 1000 + c as u64);
    let seeds: Vec<u64> = jobs.iter().map(|_| rng.gen()).collect();
    let all: Vec<Vec<Value>> = jobs.par_iter().zip(seeds).map(|(j, s)| j(&mut ChaCha8Rng::seed_from_u64(s))).collect();
    let mut h = setting::<C, I>(2 * 64 + 4);
    h["root"] = json!((1..10).map(|k| fe(Sf::<C>::primitive_root_of_unity(k))).collect::<Vec<_>>());
    h["RS"] = rescue_js::<Sf<C>>(SEC, 4);
    (h, all.into_iter().flatten().collect())
}

fn main() {
    let (cmd, ctx) = vh::start();
    if cmd != "c17" {
        vh::unknown();
    }
    let mut out = Out::new(&format!("{}/trace.ndjson", ctx.dir));
    let mut hd = Out::new(&format!("{}/hdr.ndjson", ctx.dir));
    macro_rules! one {
        ($c:expr, $A:ty, $B:ty) => {{
            let (h, v) = c17::<$A, $B>($c, &ctx);
            hd.rec(h);
            v.into_iter().for_each(|x| out.rec(x));
        }};
    }
    one!(1, Tweedledee, Tweedledum);
    one!(2, Tweedledum, Tweedledee);
    one!(3, Pallas, Vesta);
    one!(4, Vesta, Pallas);
}
