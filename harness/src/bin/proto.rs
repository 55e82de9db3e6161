//! Proofs, honest and not, and what the verifier makes of them (C04-C08, C22).
use plonky::*;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use rayon::prelude::*;
use serde_json::{json, Value};
use vh::circuits::*;
use vh::js::*;
use vh::prover::*;
use vh::*;

type Job<'a> = Box<dyn Fn() -> Vec<Value> + Sync + Send + 'a>;
type Sf<C> = <C as Curve>::ScalarField;

fn go(jobs: Vec<Job>) -> Vec<Value> {
    let v = jobs.par_iter().map(|j| j()).collect::<Vec<_>>().concat();
    // an altered value which has no counterpart in the other field cannot even be put into a proof
    v.into_iter().filter(|r| !(r["op"] == "prover" && r["error"] == "does not fit")).collect()
}

fn rng(ctx: &Ctx, c: usize, i: usize) -> ChaCha8Rng {
    ChaCha8Rng::seed_from_u64(ctx.seed * 1_000_003 + (c * 10_007 + i) as u64)
}

/// A case whose public inputs have counterparts in the base field, without which there is no transcript.
fn fitting<C: HaloCurve>(f: impl Fn(&mut ChaCha8Rng) -> Case<C>, mut r: ChaCha8Rng) -> Case<C> {
    loop {
        let case = f(&mut r);
        if pis_of(&case.circuit, &case.table()).into_iter().all(|x| C::try_convert_s2b(x).is_ok()) {
            return case;
        }
    }
}

fn failed(c: usize, what: &str, e: String) -> Value {
    json!({"op": "prover", "c": c, "what": what, "error": e})
}

/// A circuit with its table and public inputs.
struct Stmt<C: HaloCurve> {
    case: Case<C>,
    table: Vec<Vec<Sf<C>>>,
    pis: Vec<Sf<C>>,
    vk: VerificationKey<C>,
}

fn stmt<C: HaloCurve>(case: Case<C>) -> Stmt<C> {
    let table = case.table();
    let pis = pis_of(&case.circuit, &table);
    let mut vk = case.circuit.to_vk();
    vk.clear_all();
    Stmt { case, table, pis, vk }
}

impl<C: HaloCurve> Stmt<C> {
    fn prove<I: HaloCurve<BaseField = Sf<C>>>(&self, olds: &[Old<C>], dev: &Dev<Sf<C>>) -> Result<Proof<C>, String> {
        self.prove_as::<I>(&self.table, &self.pis, olds, dev)
    }
    fn prove_as<I: HaloCurve<BaseField = Sf<C>>>(&self, t: &[Vec<Sf<C>>], pis: &[Sf<C>], olds: &[Old<C>], dev: &Dev<Sf<C>>) -> Result<Proof<C>, String> {
        catch(|| prove::<C, I>(&self.case.circuit, t, pis, olds, dev)).and_then(|x| x)
    }
    fn code<I: HaloCurve<BaseField = Sf<C>>>(&self, olds: &[OldProof<C>], blind: bool) -> Result<Proof<C>, String> {
        catch(|| self.case.circuit.generate_proof::<I>(&Witness::new(self.table.clone()), olds, blind).map_err(|e| e.to_string())).and_then(|x| x)
    }
}

fn defer<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(s: &Stmt<C>, pf: &Proof<C>, olds: &[OldProof<C>]) -> Option<OldProof<C>> {
    catch(|| verify_proof::<C, I>(&s.pis, pf, olds, &s.vk, false).ok().and_then(|x| x)).ok().and_then(|x| x)
}

fn with_poly<C: HaloCurve>(o: OldProof<C>) -> Old<C> {
    let coeffs = o.coeffs();
    Old { o, coeffs }
}

fn want(mut v: Value, w: &str) -> Value {
    v["want"] = json!(w);
    v
}
fn what(mut v: Value, w: &str) -> Value {
    v["what"] = json!(w);
    v
}

// ------------------------------------------------------------------------------------------ C05
fn c05<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(c: usize, ctx: &Ctx) -> (usize, Vec<Value>) {
    let k = c05_cases::<C, I>(c, ctx).len();
    let ss: Vec<Stmt<C>> = (0..k).map(|i| stmt(c05_case::<C, I>(i, c, ctx))).collect();
    let mut jobs: Vec<Job> = vec![];
    for (k, s) in ss.iter().enumerate() {
        jobs.push(Box::new(move || {
            let circ = &s.case.circuit;
            let full = circ.to_vk();
            // the key, from the circuit
            let g: Vec<Vec<Sf<C>>> = (0..6).map(|j| circ.gate_constants.iter().map(|r| r.get(j).cloned().unwrap_or(Sf::<C>::ZERO)).collect()).collect();
            let sig: Vec<Vec<Sf<C>>> = circ.s_sigma_values_8n.iter().map(|v| v.iter().step_by(8).cloned().collect()).collect();
            let mut out = vec![json!({"op": "vk", "c": c, "vk": vk_js(&full), "consts": fess(&g), "sigmas": fess(&sig),
                "gates": circ.gate_constants.len(), "npi": s.pis.len(), "k2": vk_js(&VerificationKey::<C>::from(c05_case::<C, I>(k, c, ctx).circuit))})];
            for blind in [true, false].iter() {
                match s.code::<I>(&[], *blind) {
                    Ok(pf) => {
                        for (vk, deep) in [(&full, *blind), (&s.vk, !*blind)].iter() {
                            out.push(want(what(verify_rec::<C, I>("verify", c, vk, &s.pis, &pf, &[], *deep), &s.case.name), "accept"));
                        }
                    }
                    Err(e) => out.push(failed(c, &s.case.name, e)),
                }
            }
            match s.prove::<I>(&[], &Dev::none()) {
                Ok(pf) => out.push(want(verify_rec::<C, I>("verify", c, &s.vk, &s.pis, &pf, &[], true), "accept")),
                Err(e) => out.push(failed(c, "reference prover", e)),
            }
            out
        }));
    }
    // chains of the code's own proofs, carrying up to three
    let (cc, c9) = (&ss[1], &ss[2]);
    jobs.push(Box::new(move || {
        let mut out = vec![];
        let mut olds: Vec<OldProof<C>> = vec![];
        for step in 0..(if ctx.thorough { 8 } else { 4 }) {
            let s = if step == 2 { c9 } else { cc };
            match s.code::<I>(&olds, true) {
                Ok(pf) => {
                    out.push(want(what(verify_rec::<C, I>("verify", c, &s.vk, &s.pis, &pf, &olds, false), "chain"), "accept"));
                    out.push(want(what(verify_rec::<C, I>("verify", c, &s.vk, &s.pis, &pf, &olds, true), "chain"), "accept"));
                    // only accumulators of the same size can be carried
                    match defer::<C, I>(s, &pf, &olds) {
                        Some(o) if s.vk.degree == cc.vk.degree => {
                            if olds.len() >= 3 { olds.remove(0); }
                            olds.push(o)
                        }
                        _ => {}
                    }
                }
                Err(e) => out.push(failed(c, "chain", e)),
            }
        }
        out
    }));
    let m = ss.iter().map(|s| s.vk.degree).max().unwrap();
    (m + 2, go(jobs))
}
fn c05_cases<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(c: usize, ctx: &Ctx) -> Vec<Box<dyn Fn(&mut ChaCha8Rng) -> Case<C>>> {
    let mut cs: Vec<Box<dyn Fn(&mut ChaCha8Rng) -> Case<C>>> = vec![
        Box::new(|r| basic(0, 0, r)), Box::new(|r| basic(1, 3, r)), Box::new(|r| basic(9, 1, r)), Box::new(|r| basic(20, 2, r)),
        Box::new(|r| { let p = r.gen_range(10, 19); basic(p, 5, r) })];
    if ctx.thorough {
        for k in vec![2usize, 3, 6, 7, 8, 17, 18, 19, 27, 28] {
            cs.push(Box::new(move |r| basic(k, 7 * k, r)));
        }
    }
    // sizes just below and above powers of two
    for e in vec![24usize, 25, 26, 57, 58, 59] {
        if ctx.thorough || (e + c) % 3 == 0 {
            cs.push(Box::new(move |r| basic(1, e - 3, r)));
        }
    }
    if ctx.thorough || c % 2 == 1 {
        cs.push(Box::new(|r| rich::<C, I>(7, r)));
    }
    cs
}
fn c05_case<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(k: usize, c: usize, ctx: &Ctx) -> Case<C> {
    fitting(|r| c05_cases::<C, I>(c, ctx)[k](r), rng(ctx, c, k))
}

// ------------------------------------------------------------------------------------------ C04
const NAMES: [&str; 7] = ["beta", "gamma", "alpha", "zeta", "v", "u", "us"];

fn c04<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(c: usize, ctx: &Ctx) -> (usize, Vec<Value>) {
    let s = stmt(fitting(|r| basic::<C>(11, 2, r), rng(ctx, c, 0)));
    let mut out = vec![];
    let first = match s.code::<I>(&[], true) {
        Ok(p) => p,
        Err(e) => return (2, vec![failed(c, "base", e)]),
    };
    let o1 = defer::<C, I>(&s, &first, &[]);
    if o1.is_none() {
        return (2, vec![failed(c, "base", "the honest proof is rejected".into())]);
    }
    let olds = vec![o1.unwrap(), OldProof { halo_g: C::GENERATOR_AFFINE, halo_us: vec![Sf::<C>::TWO, Sf::<C>::from_canonical_usize(77)] }];
    let base = match s.prove::<I>(&olds.iter().cloned().map(with_poly).collect::<Vec<_>>(), &Dev::none()) {
        Ok(p) => p,
        Err(e) => return (2, vec![failed(c, "base", e)]),
    };
    out.push(what(chal_rec::<C>(c, "base", &s.pis, &base, &olds), "base"));
    let mut cut = base.clone();
    cut.halo_l.clear();
    cut.halo_r.clear();
    let one = Sf::<C>::ONE;
    let bch = chal_rec::<C>(c, "cut", &s.pis, &cut, &olds);
    let b = bch["ch"].clone();
    out.push(bch);
    // (description, index of the first challenge to change, inputs, proof, old proofs)
    let mut muts: Vec<(String, usize, Vec<Sf<C>>, Proof<C>, Vec<OldProof<C>>)> = vec![];
    let dbl = |p: AffinePoint<C>| if r_bit(p) { p.double() } else { -p };
    for i in 0..s.pis.len() {
        let mut p = s.pis.clone();
        p[i] = p[i] + one;
        muts.push((format!("pi {}", i), 0, p, cut.clone(), olds.clone()));
    }
    let mut p = s.pis.clone();
    let k = (1..p.len()).find(|&k| p[k] != p[0]).unwrap_or(0);
    p.swap(0, k);
    if k > 0 {
        muts.push(("pi swapped".into(), 0, p, cut.clone(), olds.clone()));
    }
    let mut p = s.pis.clone();
    p.push(Sf::<C>::ZERO);
    muts.push(("pi appended".into(), 0, p, cut.clone(), olds.clone()));
    let mut add = |n: String, k: usize, f: &dyn Fn(&mut Proof<C>, &mut Vec<OldProof<C>>)| {
        let mut p = cut.clone();
        let mut o = olds.clone();
        f(&mut p, &mut o);
        muts.push((n, k, s.pis.clone(), p, o));
    };
    for i in 0..9 {
        add(format!("c_wire {}", i), 0, &|p, _| p.c_wires[i] = dbl(p.c_wires[i]));
    }
    add("c_wires swapped".into(), 0, &|p, _| p.c_wires.swap(0, 8));
    add("c_wire infinite".into(), 0, &|p, _| p.c_wires[3] = AffinePoint::ZERO);
    add("c_z".into(), 2, &|p, _| p.c_plonk_z = dbl(p.c_plonk_z));
    for i in 0..7 {
        add(format!("c_t {}", i), 3, &|p, _| p.c_plonk_t[i] = dbl(p.c_plonk_t[i]));
    }
    add("c_t negated".into(), 3, &|p, _| p.c_plonk_t[2] = -p.c_plonk_t[2]);
    add("c_q".into(), 3, &|p, _| p.c_pis_quotient = dbl(p.c_pis_quotient));
    for i in 0..2 {
        add(format!("old g {}", i), 3, &|_, o| o[i].halo_g = dbl(o[i].halo_g));
        for j in 0..olds[i].halo_us.len() {
            add(format!("old u {} {}", i, j), 3, &|_, o| o[i].halo_us[j] = o[i].halo_us[j] + one);
            add(format!("old u negated {} {}", i, j), 3, &|_, o| o[i].halo_us[j] = -o[i].halo_us[j]);
        }
    }
    add("olds swapped".into(), 3, &|_, o| o.swap(0, 1));
    add("old dropped".into(), 3, &|_, o| { o.pop(); });
    for k in 0..3 {
        for i in 0..(31 + 1) {
            if !ctx.thorough && i % 2 == c % 2 { continue; }
            add(format!("opening {} {}", k, i), 4, &|p, _| {
                let mut v = slots(match k { 0 => &mut p.o_local, 1 => &mut p.o_right, _ => &mut p.o_below });
                let j = std::cmp::min(i, v.len() - 1);
                *v[j] = *v[j] + one;
            });
        }
    }
    add("opening sets swapped".into(), 4, &|p, _| std::mem::swap(&mut p.o_local, &mut p.o_right));
    add("schnorr r".into(), 7, &|p, _| p.schnorr_proof.r = dbl(p.schnorr_proof.r));
    // messages after the last challenge
    add("z1".into(), 8, &|p, _| p.schnorr_proof.z1 = p.schnorr_proof.z1 + one);
    add("z2".into(), 8, &|p, _| p.schnorr_proof.z2 = p.schnorr_proof.z2 + one);
    add("g".into(), 8, &|p, _| p.halo_g = dbl(p.halo_g));
    let muts = muts;
    out.extend(muts.par_iter().map(|(n, k, pis, pf, o)| {
        let mut v = chal_rec::<C>(c, n, pis, pf, o);
        v["bch"] = b.clone();
        v["from"] = json!(k);
        v
    }).collect::<Vec<_>>());
    // rounds: the challenge of a round depends on its points and on those of the rounds before
    let rounds = base.halo_l.len();
    let ups: Vec<usize> = if ctx.thorough { (0..rounds).collect() } else { vec![0, 1, rounds - 1] };
    for &j in &ups {
        let mut p = base.clone();
        p.halo_l.truncate(j + 1);
        p.halo_r.truncate(j + 1);
        let bj = chal_rec::<C>(c, "rounds", &s.pis, &p, &olds);
        out.push(bj.clone());
        for side in 0..2 {
            // several alterations: for half of them the round's challenge is not a square
            let alts: Vec<Value> = (1..6usize).into_par_iter().map(|m| {
                let mut q = p.clone();
                let v = if side == 0 { &mut q.halo_l } else { &mut q.halo_r };
                v[j] = (C::convert(Sf::<C>::from_canonical_usize(m + 1)) * v[j].to_projective()).to_affine();
                let mut a = chal_rec::<C>(c, "round altered", &s.pis, &q, &olds);
                a["bch"] = bj["ch"].clone();
                a["from"] = json!(7 + j);
                a
            }).collect();
            out.extend(alts);
        }
    }
    // one history, many lengths of the preceding messages
    let _ = NAMES;
    (2, out)
}
fn r_bit<C: Curve>(p: AffinePoint<C>) -> bool {
    !p.zero && p.x.to_canonical_u64_vec()[0] % 2 == 0
}

// ------------------------------------------------------------------------------------------ C06
fn table_js<C: HaloCurve>(c: &Circuit<C>) -> Value {
    let k: Vec<Vec<Sf<C>>> = c.gate_constants.iter().map(|r| (0..6).map(|j| r.get(j).cloned().unwrap_or(Sf::<C>::ZERO)).collect()).collect();
    let sig = sigma_values(c);
    // where each value points, found by its being k_j g^i
    let mut at = std::collections::HashMap::new();
    for j in 0..NR {
        for (i, &g) in c.subgroup_n.iter().enumerate() {
            at.insert(shift::<Sf<C>>(j) * g, json!([j + 1, i]));
        }
    }
    let to: Vec<Vec<Value>> = sig.iter().map(|v| v.iter().map(|x| at.get(x).cloned().unwrap_or(json!([0, 0]))).collect()).collect();
    json!({"k": fess(&k), "sig": fess(&sig), "to": to})
}

fn c06<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(c: usize, ctx: &Ctx) -> (usize, Vec<Value>) {
    let s = stmt(fitting(|r| basic::<C>(11, 2, r), rng(ctx, c, 0)));
    let big = c == 1 || ctx.thorough;
    let s2 = if big { Some(stmt(fitting(|r| rich::<C, I>(7, r), rng(ctx, c, 1)))) } else { None };
    let one = Sf::<C>::ONE;
    let d = Sf::<C>::from_canonical_usize(1 + ctx.seed as usize % 1000);
    let n = s.vk.degree;
    let mut jobs: Vec<Job> = vec![];
    let ver = move |w: String, pis: &[Sf<C>], pf: &Proof<C>, vk: &VerificationKey<C>, deep: bool| what(verify_rec::<C, I>("verify", c, vk, pis, pf, &[], deep), &w);
    let s = &s;
    let dev = |f: &dyn Fn(&mut Dev<Sf<C>>)| { let mut x = Dev::none(); f(&mut x); x };

    // 1. wrong tables: accepted exactly if the assignment satisfies the circuit
    let cells = if ctx.thorough { 12 * 9 } else { 18 };
    let rows: Vec<usize> = {
        // every kind of row there is, and the neighbours of some
        let k = &s.case.circuit.gate_constants;
        (0..n).filter(|&i| i < 12 || i >= n - 2 || (s.vk.num_gates_without_pis..s.vk.num_gates_without_pis + 5).contains(&i) || k[i].len() > 6).collect()
    };
    for t in 0..cells {
        let mut rr = rng(ctx, c, 100 + t);
        let (row, col) = if ctx.thorough { (rows[(t / 9) % rows.len()], t % 9) } else { (rows[rr.gen_range(0, rows.len())], rr.gen_range(0, 9)) };
        jobs.push(Box::new(move || {
            let mut tb = s.table.clone();
            tb[row][col] = tb[row][col] + d;
            let tj = table_js(&s.case.circuit);
            let pis = if t % 2 == 0 { pis_of(&s.case.circuit, &tb) } else { s.pis.clone() };
            match s.prove_as::<I>(&tb, &pis, &[], &Dev::none()) {
                Ok(pf) => {
                    let mut v = ver(format!("cell {} {}", row, col), &pis, &pf, &s.vk, false);
                    v["op"] = json!("table");
                    v["circ"] = tj;
                    v["table"] = fess(&tb);
                    vec![v]
                }
                Err(e) => vec![failed(c, "cell", e)],
            }
        }));
    }
    // 2. a vanishing term left out of the quotient; Z scaled
    let ds: Vec<Dev<Sf<C>>> = (0..10).map(|k| dev(&|x| x.drop = Some(k))).chain(vec![dev(&|x| x.z_scale = Some(Sf::<C>::TWO)),
        dev(&|x| { x.z_scale = Some(Sf::<C>::TWO); x.drop = Some(0) })]).collect();
    for (i, x) in ds.into_iter().enumerate() {
        if !ctx.thorough && i % 2 != c % 2 { continue; }
        jobs.push(Box::new(move || match s.prove::<I>(&[], &x) {
            Ok(pf) => vec![ver(format!("drop {:?}", x.drop), &s.pis, &pf, &s.vk, false)],
            Err(e) => vec![failed(c, "drop", e)],
        }));
    }
    // 3. public inputs lied about
    for i in 0..s.pis.len() {
        if !ctx.thorough && i % 4 != c - 1 && i < 9 { continue; }
        for fix in [false, true].iter() {
            jobs.push(Box::new(move || {
                let mut p = s.pis.clone();
                p[i] = p[i] + d;
                match s.prove_as::<I>(&s.table, &p, &[], &dev(&|x| x.fix_q = *fix)) {
                    Ok(pf) => vec![ver(format!("pi {}", i), &p, &pf, &s.vk, false)],
                    Err(e) => vec![failed(c, "pi", e)],
                }
            }));
        }
    }
    jobs.push(Box::new(move || {
        // two lies which cancel unless the columns are combined with random powers
        let mut p = s.pis.clone();
        p[0] = p[0] + d;
        p[1] = p[1] - d;
        match s.prove_as::<I>(&s.table, &p, &[], &dev(&|x| x.fix_q = true)) {
            Ok(pf) => vec![ver("pi pair".into(), &p, &pf, &s.vk, false)],
            Err(e) => vec![failed(c, "pi", e)],
        }
    }));
    // 4. opened values altered, the identities repaired: only the opening argument stands against them
    for set in 0..3 {
        for pos in 0..30 {
            if !ctx.thorough && (set * 30 + pos) % 4 != c - 1 { continue; }
            jobs.push(Box::new(move || match s.prove::<I>(&[], &dev(&|x| { x.open = vec![(set, pos, d)]; x.fix_t = true; x.fix_q = true })) {
                Ok(pf) => vec![ver(format!("opening {} {}", set, pos), &s.pis, &pf, &s.vk, false)],
                Err(e) => vec![failed(c, "opening", e)],
            }));
        }
    }
    for (a, b) in vec![((0, 1), (0, 2)), ((0, 6), (1, 6)), ((1, 12), (2, 12)), ((1, 22), (1, 28)), ((2, 29), (0, 3))] {
        jobs.push(Box::new(move || match s.prove::<I>(&[], &dev(&|x| { x.open = vec![(a.0, a.1, d), (b.0, b.1, -d)]; x.fix_t = true; x.fix_q = true })) {
            Ok(pf) => vec![ver(format!("openings {:?} {:?}", a, b), &s.pis, &pf, &s.vk, false)],
            Err(e) => vec![failed(c, "opening", e)],
        }));
    }
    // 5. finished proofs with an element altered, keys altered, and forged final points
    let base = s.prove::<I>(&[], &Dev::none());
    if let Err(e) = &base {
        return (n + 2, vec![failed(c, "base", e.clone())]);
    }
    let base = base.unwrap();
    let b: &Proof<C> = Box::leak(Box::new(base.clone()));
    jobs.push(Box::new(move || vec![want(ver("base".into(), &s.pis, b, &s.vk, true), "accept")]));
    let mut alt: Vec<(String, Vec<Sf<C>>, Proof<C>, VerificationKey<C>, bool)> = vec![];
    {
        let mut add = |w: &str, deep: bool, f: &dyn Fn(&mut Vec<Sf<C>>, &mut Proof<C>, &mut VerificationKey<C>)| {
            let (mut x, mut p, mut k) = (s.pis.clone(), base.clone(), s.vk.clone());
            f(&mut x, &mut p, &mut k);
            alt.push((w.to_string(), x, p, k, deep));
        };
        let g = C::GENERATOR_AFFINE;
        let up = |p: &mut AffinePoint<C>| *p = (p.to_projective() + C::GENERATOR_PROJECTIVE).to_affine();
        add("z1", false, &|_, p, _| p.schnorr_proof.z1 = p.schnorr_proof.z1 + one);
        add("z2", false, &|_, p, _| p.schnorr_proof.z2 = p.schnorr_proof.z2 + one);
        add("sr", false, &|_, p, _| up(&mut p.schnorr_proof.r));
        add("g", false, &|_, p, _| up(&mut p.halo_g));
        add("g negated", false, &|_, p, _| p.halo_g = -p.halo_g);
        add("g deep", true, &|_, p, _| up(&mut p.halo_g));
        for i in 0..base.halo_l.len() {
            if i % 4 == c - 1 {
                add("L", false, &|_, p, _| up(&mut p.halo_l[i]));
                add("R", false, &|_, p, _| up(&mut p.halo_r[i]));
            }
        }
        add("L and R exchanged", false, &|_, p, _| std::mem::swap(&mut p.halo_l, &mut p.halo_r));
        add("all zero", false, &|_, p, _| { p.schnorr_proof.z1 = Sf::<C>::ZERO; p.schnorr_proof.z2 = Sf::<C>::ZERO; p.schnorr_proof.r = AffinePoint::ZERO; p.halo_g = AffinePoint::ZERO });
        for i in 0..12 {
            if i % 4 == c - 1 || ctx.thorough {
                add("key commitment", false, &|_, _, k| if i < 6 { up(&mut k.c_constants[i]) } else { up(&mut k.c_s_sigmas[i - 6]) });
            }
        }
        add("key commitments exchanged", false, &|_, _, k| k.c_constants.swap(0, 1));
        add("key sigmas exchanged", false, &|_, _, k| k.c_s_sigmas.swap(0, 1));
        add("key offset", false, &|_, _, k| k.num_gates_without_pis += 2);
        add("key inputs", false, &|_, _, k| k.num_public_inputs -= 1);
        add("key security", false, &|_, _, k| k.security_bits = 126);
        add("pi", false, &|x, _, _| x[0] = x[0] + one);
        add("pis", false, &|x, _, _| x[9] = x[9] + one);
        for i in 0..9 {
            if i % 4 == c - 1 {
                add("c_wire", false, &|_, p, _| up(&mut p.c_wires[i]));
            }
        }
        add("c_t", false, &|_, p, _| up(&mut p.c_plonk_t[6]));
        add("c_z", false, &|_, p, _| p.c_plonk_z = g);
        add("c_q", false, &|_, p, _| up(&mut p.c_pis_quotient));
        add("t exchanged", false, &|_, p, _| p.c_plonk_t.swap(0, 1));
    }
    let alt = Box::leak(Box::new(alt));
    for (w, x, p, k, deep) in alt.iter() {
        jobs.push(Box::new(move || vec![ver(w.clone(), x, p, k, *deep)]));
    }
    // a free final point makes a deferred verification accept anything that satisfies the identities
    jobs.push(Box::new(move || {
        let mut out = vec![];
        for (set, pos) in vec![(0, 12), (1, 14), (2, 20)] {
            match s.prove::<I>(&[], &dev(&|x| { x.open = vec![(set, pos, d)]; x.fix_t = true; x.fix_q = true })).and_then(|pf| catch(|| forge_g(&s.vk, &s.pis, &pf, &[])).and_then(|x| x)) {
                Ok(pf) => {
                    out.push(want(ver("forged g, deferred".into(), &s.pis, &pf, &s.vk, false), "accept"));
                    out.push(want(ver("forged g".into(), &s.pis, &pf, &s.vk, true), "final point"));
                }
                Err(e) => out.push(failed(c, "forge", e)),
            }
        }
        out
    }));
    // 6. the larger circuit: cells of its other gates
    if let Some(s2) = &s2 {
        let k = if ctx.thorough { 300 } else { 12 };
        for t in 0..k {
            jobs.push(Box::new(move || {
                let mut rr = rng(ctx, c, 5000 + t);
                let m = s2.vk.num_gates_without_pis;
                let (row, col) = (rr.gen_range(0, m), rr.gen_range(0, 9));
                let mut tb = s2.table.clone();
                tb[row][col] = tb[row][col] + d;
                match s2.prove_as::<I>(&tb, &s2.pis, &[], &Dev::none()) {
                    Ok(pf) => {
                        let mut v = ver(format!("cell {} {}", row, col), &s2.pis, &pf, &s2.vk, false);
                        v["op"] = json!("table");
                        v["circ"] = table_js(&s2.case.circuit);
                        v["table"] = fess(&tb);
                        vec![v]
                    }
                    Err(e) => vec![failed(c, "cell", e)],
                }
            }));
        }
    }
    let m = s2.as_ref().map_or(n, |x| x.vk.degree);
    (m + 2, go(jobs))
}

// ------------------------------------------------------------------------------------------ C07
fn c07<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(c: usize, ctx: &Ctx) -> (usize, Vec<Value>) {
    let s = stmt(fitting(|r| basic::<C>(if c % 2 == 0 { 3 } else { 10 }, 1, r), rng(ctx, c, 0)));
    let first = match s.code::<I>(&[], true) {
        Ok(p) => p,
        Err(e) => return (2, vec![failed(c, "base", e)]),
    };
    let o = match defer::<C, I>(&s, &first, &[]) {
        Some(o) => o,
        None => return (2, vec![failed(c, "base", "the honest proof is rejected".into())]),
    };
    let olds = vec![o.clone()];
    let base = match s.code::<I>(&olds, true) {
        Ok(p) => p,
        Err(e) => return (2, vec![failed(c, "base", e)]),
    };
    type M<C> = (String, Vec<Sf<C>>, Proof<C>, Vec<OldProof<C>>);
    let mut ms: Vec<M<C>> = vec![("base".into(), s.pis.clone(), base.clone(), olds.clone())];
    let mut add = |w: String, f: &dyn Fn(&mut Vec<Sf<C>>, &mut Proof<C>, &mut Vec<OldProof<C>>)| {
        let (mut x, mut p, mut k) = (s.pis.clone(), base.clone(), olds.clone());
        f(&mut x, &mut p, &mut k);
        ms.push((w, x, p, k));
    };
    fn resize<T: Clone>(v: &mut Vec<T>, how: usize) {
        match how {
            0 => v.clear(),
            1 => { v.pop(); }
            2 => { let x = v[0].clone(); v.push(x) }
            _ => { let x = v.clone(); v.extend(x) }
        }
    }
    // lengths
    for h in 0..4 {
        add(format!("pis {}", h), &|x, _, _| resize(x, h));
        add(format!("c_wires {}", h), &|_, p, _| resize(&mut p.c_wires, h));
        add(format!("c_t {}", h), &|_, p, _| resize(&mut p.c_plonk_t, h));
        add(format!("L {}", h), &|_, p, _| resize(&mut p.halo_l, h));
        add(format!("R {}", h), &|_, p, _| resize(&mut p.halo_r, h));
        add(format!("L and R {}", h), &|_, p, _| { resize(&mut p.halo_l, h); resize(&mut p.halo_r, h) });
        for k in 0..3 {
            if !ctx.thorough && (k + h) % 4 != c - 1 { continue; }
            fn os<C: HaloCurve>(p: &mut Proof<C>, k: usize) -> &mut OpeningSet<Sf<C>> {
                match k { 0 => &mut p.o_local, 1 => &mut p.o_right, _ => &mut p.o_below }
            }
            add(format!("o_constants {} {}", k, h), &|_, p, _| resize(&mut os(p, k).o_constants, h));
            add(format!("o_sigmas {} {}", k, h), &|_, p, _| resize(&mut os(p, k).o_plonk_sigmas, h));
            add(format!("o_wires {} {}", k, h), &|_, p, _| resize(&mut os(p, k).o_wires, h));
            add(format!("o_t {} {}", k, h), &|_, p, _| resize(&mut os(p, k).o_plonk_t, h));
            add(format!("o_old {} {}", k, h), &|_, p, _| resize(&mut os(p, k).o_old_proofs, h));
            // the total is right, the split is not
            add(format!("o_shift {} {}", k, h), &|_, p, _| {
                let o = os(p, k);
                match h {
                    0 => { let x = o.o_constants.pop().unwrap(); o.o_plonk_sigmas.insert(0, x) }
                    1 => { let x = o.o_plonk_sigmas.remove(0); o.o_constants.push(x) }
                    2 => { let x = o.o_plonk_t.pop().unwrap(); o.o_old_proofs.insert(0, x) }
                    _ => { let x = o.o_wires.remove(0); o.o_plonk_sigmas.push(x) }
                }
            });
        }
        add(format!("olds {}", h), &|_, _, k| resize(k, h));
        add(format!("old us {}", h), &|_, _, k| resize(&mut k[0].halo_us, h));
    }
    add("olds without openings".into(), &|_, p, _| { p.o_local.o_old_proofs.clear(); p.o_right.o_old_proofs.clear(); p.o_below.o_old_proofs.clear() });
    add("no olds at all".into(), &|_, p, k| { k.clear(); p.o_local.o_old_proofs.clear(); p.o_right.o_old_proofs.clear(); p.o_below.o_old_proofs.clear() });
    add("all empty".into(), &|x, p, k| {
        x.clear();
        k.clear();
        p.c_wires.clear();
        p.c_plonk_t.clear();
        for o in vec![&mut p.o_local, &mut p.o_right, &mut p.o_below] {
            o.o_constants.clear(); o.o_plonk_sigmas.clear(); o.o_wires.clear(); o.o_plonk_t.clear(); o.o_old_proofs.clear();
        }
        p.halo_l.clear();
        p.halo_r.clear();
    });
    // points
    let one = Sf::<C>::ONE;
    let bone = C::BaseField::ONE;
    let bad: Vec<(&str, Box<dyn Fn(AffinePoint<C>) -> AffinePoint<C>>)> = vec![
        ("off the curve", Box::new(move |p| AffinePoint { x: p.x, y: p.y + bone, zero: false })),
        ("origin", Box::new(|_| AffinePoint { x: C::BaseField::ZERO, y: C::BaseField::ZERO, zero: false })),
        ("infinite", Box::new(|_| AffinePoint::ZERO)),
        ("infinite with coordinates", Box::new(|p| AffinePoint { x: p.x, y: p.y, zero: true })),
    ];
    for (w, f) in &bad {
        let w = *w;
        let all = ctx.thorough || (w.starts_with("off") && c % 2 == 1);
        for i in 0..9 { if all || i == c { add(format!("c_wire {} {}", i, w), &|_, p, _| p.c_wires[i] = f(p.c_wires[i])); } }
        for i in 0..7 { if all || i == c { add(format!("c_t {} {}", i, w), &|_, p, _| p.c_plonk_t[i] = f(p.c_plonk_t[i])); } }
        add(format!("c_z {}", w), &|_, p, _| p.c_plonk_z = f(p.c_plonk_z));
        add(format!("c_q {}", w), &|_, p, _| p.c_pis_quotient = f(p.c_pis_quotient));
        for i in 0..base.halo_l.len() {
            if all || i == c - 1 {
                add(format!("L {} {}", i, w), &|_, p, _| p.halo_l[i] = f(p.halo_l[i]));
                add(format!("R {} {}", i, w), &|_, p, _| p.halo_r[i] = f(p.halo_r[i]));
            }
        }
        add(format!("g {}", w), &|_, p, _| p.halo_g = f(p.halo_g));
        add(format!("sr {}", w), &|_, p, _| p.schnorr_proof.r = f(p.schnorr_proof.r));
        add(format!("old g {}", w), &|_, _, k| k[0].halo_g = f(k[0].halo_g));
    }
    // field elements
    for (w, v) in vec![("0", Sf::<C>::ZERO), ("-1", Sf::<C>::NEG_ONE), ("1", one)] {
        for i in 0..s.pis.len() {
            if i % 3 == c % 3 { add(format!("pi {} is {}", i, w), &|x, _, _| x[i] = v); }
        }
        for k in 0..3 {
            for i in 0..31 {
                if ctx.thorough || (i + k + c) % 12 == 0 {
                    add(format!("opening {} {} is {}", k, i, w), &|_, p, _| {
                        let mut o = slots(match k { 0 => &mut p.o_local, 1 => &mut p.o_right, _ => &mut p.o_below });
                        *o[i] = v;
                    });
                }
            }
        }
        add(format!("z1 is {}", w), &|_, p, _| p.schnorr_proof.z1 = v);
        add(format!("z2 is {}", w), &|_, p, _| p.schnorr_proof.z2 = v);
        for i in 0..o.halo_us.len() {
            if i % 2 == 0 { add(format!("old u {} is {}", i, w), &|_, _, k| k[0].halo_us[i] = v); }
        }
        add(format!("old us are {}", w), &|_, _, k| { let n = k[0].halo_us.len(); k[0].halo_us = vec![v; n] });
    }
    let ms = ms;
    // a shifted key as well: these proofs are for another circuit
    let out: Vec<Value> = ms.par_iter().enumerate().map(|(i, (w, x, p, k))| what(verify_rec::<C, I>("verify", c, &s.vk, x, p, k, (i + c) % 4 == 0), w)).collect();
    (s.vk.degree + 2, out)
}

// ------------------------------------------------------------------------------------------ C08
fn c08<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(c: usize, ctx: &Ctx) -> (usize, Vec<Value>) {
    let s = stmt(fitting(|r| basic::<C>(1, 1, r), rng(ctx, c, 0)));
    let s2 = stmt(fitting(|r| basic::<C>(20, 3, r), rng(ctx, c, 1)));
    let (s, s2) = (&s, &s2);
    let d = Sf::<C>::from_canonical_usize(5);
    let g1 = |x: AffinePoint<C>| (x.to_projective() + C::GENERATOR_PROJECTIVE).to_affine();
    let ver = |w: &str, s: &Stmt<C>, pf: &Proof<C>, olds: &[OldProof<C>], deep: bool| what(verify_rec::<C, I>("verify", c, &s.vk, &s.pis, pf, olds, deep), w);
    let ver = &ver;
    let dev = |f: &dyn Fn(&mut Dev<Sf<C>>)| { let mut x = Dev::none(); f(&mut x); x };
    // an honest accumulator, a second one, and one whose final point is forged
    let mk = |s: &Stmt<C>| -> Result<OldProof<C>, String> {
        let p = s.prove::<I>(&[], &Dev::none())?;
        defer::<C, I>(s, &p, &[]).ok_or("the honest proof is rejected".to_string())
    };
    let forged = || -> Result<(Proof<C>, OldProof<C>), String> {
        let p = s.prove::<I>(&[], &dev(&|x| { x.open = vec![(0, 12, d)]; x.fix_t = true; x.fix_q = true }))?;
        let p = catch(|| forge_g(&s.vk, &s.pis, &p, &[])).and_then(|x| x)?;
        let o = defer::<C, I>(s, &p, &[]).ok_or("a deferred verification of a forged final point is refused".to_string())?;
        Ok((p, o))
    };
    let (a, b, f, z) = match (mk(s), mk(s), forged(), mk(s2)) {
        (Ok(a), Ok(b), Ok(f), Ok(z)) => (a, b, f, z),
        (a, b, f, z) => return (2, vec![failed(c, "base", format!("{:?}", (a.err(), b.err(), f.err(), z.err())))]),
    };
    let mut jobs: Vec<Job> = vec![];
    let (a, b, fp, f, z) = (&a, &b, &f.0, &f.1, &z);
    let hon = |o: &OldProof<C>| with_poly(o.clone());
    // carried honestly: lists of up to three
    for (i, l) in vec![vec![a], vec![a, b], vec![b, a, b], vec![a, a], vec![z], vec![a, z]].into_iter().enumerate() {
        for (t, code) in vec![(s, true), (s, false), (s2, false)] {
            if !ctx.thorough && (i + c) % 2 == 1 { continue; }
            let l = l.clone();
            jobs.push(Box::new(move || {
                let os: Vec<OldProof<C>> = l.iter().map(|&o| o.clone()).collect();
                let small = os.iter().all(|o| 1 << o.halo_us.len() <= t.vk.degree);
                let pf = if code { t.code::<I>(&os, true) } else { t.prove::<I>(&os.iter().map(hon).collect::<Vec<_>>(), &Dev::none()) };
                match pf {
                    Ok(pf) => {
                        let v = ver("honest list", t, &pf, &os, true);
                        let v2 = ver("honest list", t, &pf, &os, false);
                        if os.iter().all(|o| 1 << o.halo_us.len() == t.vk.degree) { vec![want(v, "accept"), want(v2, "accept")] } else { vec![v, v2] }
                    }
                    Err(e) => if small { vec![failed(c, "carry", e)] } else { vec![] },
                }
            }));
        }
    }
    // a false accumulator is carried
    let falses: Vec<(String, OldProof<C>)> = vec![
        ("forged".into(), f.clone()),
        ("g".into(), OldProof { halo_g: g1(a.halo_g), halo_us: a.halo_us.clone() }),
        ("g negated".into(), OldProof { halo_g: -a.halo_g, halo_us: a.halo_us.clone() }),
        ("g of another".into(), OldProof { halo_g: b.halo_g, halo_us: a.halo_us.clone() }),
        ("g infinite".into(), OldProof { halo_g: AffinePoint::ZERO, halo_us: a.halo_us.clone() }),
        ("u".into(), OldProof { halo_g: a.halo_g, halo_us: { let mut u = a.halo_us.clone(); u[0] = u[0] + d; u } }),
        ("u negated".into(), OldProof { halo_g: a.halo_g, halo_us: { let mut u = a.halo_us.clone(); u[1] = -u[1]; u } }),
        ("u inverted".into(), OldProof { halo_g: a.halo_g, halo_us: a.halo_us.iter().map(|u| u.multiplicative_inverse().unwrap()).collect() }),
        ("us reversed".into(), OldProof { halo_g: a.halo_g, halo_us: { let mut u = a.halo_us.clone(); u.reverse(); u } }),
        ("us short".into(), OldProof { halo_g: a.halo_g, halo_us: a.halo_us[1..].to_vec() }),
    ];
    let fs = Box::leak(Box::new(falses));
    for (i, (w, o)) in fs.iter().enumerate() {
        for at in 0..3 {
            if !ctx.thorough && (at != 0 || c > 2) && (i + at + c) % 4 != 0 { continue; }
            jobs.push(Box::new(move || {
                let list: Vec<OldProof<C>> = match at { 0 => vec![o.clone()], 1 => vec![a.clone(), o.clone()], _ => vec![o.clone(), b.clone(), a.clone()] };
                let polys: Vec<Old<C>> = list.iter().map(hon).collect();
                let mut out = vec![];
                // by the code's prover
                if let Ok(pf) = s.code::<I>(&list, true) {
                    out.push(ver(&format!("false {} code", w), s, &pf, &list, true));
                    out.push(ver(&format!("false {} code", w), s, &pf, &list, false));
                }
                // with the polynomial behind the final point, whatever the challenges
                for x in &[a, b] {
                    if o.halo_g == x.halo_g {
                        let polys: Vec<Old<C>> = list.iter().map(|y| if y.halo_g == x.halo_g { Old { o: y.clone(), coeffs: x.coeffs() } } else { hon(y) }).collect();
                        match s.prove::<I>(&polys, &Dev::none()) {
                            Ok(pf) => {
                                out.push(ver(&format!("false {} truly opened", w), s, &pf, &list, false));
                                out.push(ver(&format!("false {} truly opened", w), s, &pf, &list, true));
                            }
                            Err(e) => out.push(failed(c, "carry", e)),
                        }
                    }
                }
                // with the opened value the challenges determine, and with the true one adjusted
                match s.prove::<I>(&polys, &Dev::none()) {
                    Ok(pf) => {
                        out.push(ver(&format!("false {}", w), s, &pf, &list, false));
                        match catch(|| forge_g(&s.vk, &s.pis, &pf, &list)).and_then(|x| x) {
                            Ok(p2) => {
                                out.push(ver(&format!("false {} deferred again", w), s, &p2, &list, false));
                                out.push(ver(&format!("false {} deferred again", w), s, &p2, &list, true));
                            }
                            Err(e) => out.push(failed(c, "forge", e)),
                        }
                    }
                    Err(e) => out.push(failed(c, "carry", e)),
                }
                out
            }));
        }
    }
    // openings of the old polynomials altered at each of the three points
    for set in 0..3 {
        for j in 0..2 {
            jobs.push(Box::new(move || {
                let list = vec![a.clone(), b.clone()];
                match s.prove::<I>(&list.iter().map(hon).collect::<Vec<_>>(), &dev(&|x| x.open = vec![(set, 29 + j, d)])) {
                    Ok(pf) => vec![ver("opening", s, &pf, &list, false)],
                    Err(e) => vec![failed(c, "carry", e)],
                }
            }));
        }
    }
    // lists which differ from the prover's
    jobs.push(Box::new(move || {
        let list = vec![a.clone(), b.clone()];
        let pf = match s.code::<I>(&list, true) { Ok(p) => p, Err(e) => return vec![failed(c, "carry", e)] };
        let other = OldProof { halo_g: a.halo_g, halo_us: b.halo_us.clone() };
        let mut out = vec![];
        for l in vec![vec![b, a], vec![a], vec![], vec![a, b, a], vec![a, a], vec![a, f], vec![f, b], vec![a, &other], vec![&other, b]] {
            let l: Vec<OldProof<C>> = l.into_iter().cloned().collect();
            out.push(ver("another list", s, &pf, &l, false));
            // also with the openings cut to fit
            let mut q = pf.clone();
            for o in vec![&mut q.o_local, &mut q.o_right, &mut q.o_below] { o.o_old_proofs.resize(l.len(), Sf::<C>::ONE); }
            out.push(ver("another list, cut", s, &q, &l, false));
        }
        out
    }));
    // challenges of the old proof chosen after the evaluation point: one of them solved for, such that another
    // polynomial's value is the right one
    jobs.push(Box::new(move || {
        let mut out = vec![];
        for _ in 0..3 {
            match adaptive::<C, I>(s, a, c) {
                Ok(v) => out.extend(v),
                Err(e) => out.push(failed(c, "adaptive", e)),
            }
        }
        out
    }));
    // the forged proof itself, both ways
    jobs.push(Box::new(move || vec![want(ver("forged", s, fp, &[], false), "accept"), want(ver("forged", s, fp, &[], true), "final point")]));
    (s.vk.degree.max(s2.vk.degree) + 2, go(jobs))
}

/// A prover which runs the protocol with a wrong polynomial for the accumulator's point (a constant one), not
/// observing the accumulator's challenges, then picks its first challenge such that the opened value is right.
fn adaptive<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(s: &Stmt<C>, a: &OldProof<C>, c: usize) -> Result<Vec<Value>, String> {
    let one = Sf::<C>::ONE;
    // the polynomial behind the point: 3, committed as 3 G0
    let mut coeffs = vec![Sf::<C>::ZERO; s.vk.degree];
    coeffs[0] = one + one + one;
    let g = (C::convert(coeffs[0]) * s.case.circuit.pedersen_g[0].to_projective()).to_affine();
    let o = Old { o: OldProof { halo_g: g, halo_us: a.halo_us.clone() }, coeffs };
    let dev = Dev { unbound: true, ..Dev::none() };
    let mut pf = s.prove_as::<I>(&s.table, &s.pis, &[o.clone()], &dev)?;
    let _ = &mut pf;
    // zeta of a transcript without the challenges
    let bare = OldProof { halo_g: g, halo_us: vec![] };
    let ch = pf.get_challenges(&s.pis, &[bare]).map_err(|e| e.to_string())?;
    // g(x, us) = prod (u_i^-1 + u_i x^(2^k)): pick u for the first factor such that the product is 3
    let mut out = vec![];
    for i in 0..a.halo_us.len() {
        let mut us = a.halo_us.clone();
        us[i] = one;
        let rest_at = |v: Sf<C>| { let mut u = us.clone(); u[i] = v; plonky::plonk_util::halo_g(ch.zeta, &u) };
        // factor(1) and factor(2) give the product's form p (1/u + u x): two equations
        let (f1, f2) = (rest_at(one), rest_at(one + one));
        let half = (one + one).multiplicative_inverse().unwrap();
        // f1 = p + q, f2 = p/2 + 2q
        let q = (f2 - f1 * half) / (one + one - half);
        let p = f1 - q;
        // p/u + q u = 3  <=>  q u^2 - 3 u + p = 0
        let three = one + one + one;
        let disc = three * three - (one + one + one + one) * p * q;
        if let Some(rt) = disc.square_root() {
            let u = (three + rt) / (q + q);
            if u.is_zero() { continue; }
            us[i] = u;
            let old = OldProof { halo_g: g, halo_us: us };
            out.push(what(verify_rec::<C, I>("verify", c, &s.vk, &s.pis, &pf, &[old.clone()], false), "adaptive"));
            break;
        }
    }
    Ok(out)
}

// ------------------------------------------------------------------------------------------ C22
fn c22<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(c: usize, ctx: &Ctx) -> (usize, Vec<Value>) {
    let mut cases: Vec<Case<C>> = vec![fitting(|r| basic(1, 1, r), rng(ctx, c, 0)), fitting(|r| basic(10, 4, r), rng(ctx, c, 1))];
    if ctx.thorough {
        cases.push(fitting(|r| rich::<C, I>(7, r), rng(ctx, c, 2)));
        cases.push(fitting(|r| basic(3, 56, r), rng(ctx, c, 3)));
        cases.push(fitting(|r| basic(20, 20, r), rng(ctx, c, 4)));
    }
    let ss: Vec<Stmt<C>> = cases.into_iter().map(stmt).collect();
    let k = if ctx.thorough { 6 } else { 3 };
    let mut jobs: Vec<Job> = vec![];
    for s in &ss {
        let ci = &s.case.circuit;
        let n = s.vk.degree;
        jobs.push(Box::new(move || {
            let ts: Vec<_> = (0..k).map(|_| s.case.table()).collect();
            vec![json!({"op": "rows", "c": c, "tables": ts.iter().map(|t| fess(t)).collect::<Vec<_>>(), "circ": table_js(ci), "vk": vk_js(&s.vk)})]
        }));
        jobs.push(Box::new(move || {
            let cols: Vec<Vec<Sf<C>>> = (0..9).map(|j| s.table.iter().map(|r| r[j]).collect()).collect();
            let wires: Vec<_> = cols.iter().map(|v| Polynomial::from_evaluations(v, &ci.fft_precomputation_n)).collect();
            let mut out = vec![];
            let mut ps = vec![];
            for _ in 0..k {
                let r = s.code::<I>(&[], true).and_then(|p| {
                    let ch = p.get_challenges(&s.pis, &[]).map_err(|e| e.to_string())?;
                    let z = z_poly(ci, &s.table, ch.beta, ch.gamma, None);
                    let ts = t_polys::<C, I>(ci, &wires, &z, ch.alpha, ch.beta, ch.gamma, None);
                    let q = q_poly(ci, &cols, &s.pis, ch.alpha);
                    let mut all: Vec<Vec<Sf<C>>> = wires.iter().map(|p| p.coeffs().to_vec()).collect();
                    all.push(z.coeffs().to_vec());
                    all.extend(ts.iter().map(|p| p.coeffs().to_vec()));
                    all.push(q.coeffs().to_vec());
                    Ok((p, all))
                });
                match r {
                    Ok((p, all)) => {
                        out.push(want(verify_rec::<C, I>("verify", c, &s.vk, &s.pis, &p, &[], true), "accept"));
                        ps.push(json!({"pf": proof_js(&p), "polys": fess(&all)}));
                    }
                    Err(e) => out.push(failed(c, "proof", e)),
                }
            }
            out.push(json!({"op": "fresh", "c": c, "proofs": ps, "n": n}));
            out
        }));
        // commitments of polynomials
        jobs.push(Box::new(move || {
            let col: Vec<_> = s.table.iter().map(|r| r[0]).collect();
            let polys: Vec<Polynomial<Sf<C>>> = vec![
                Polynomial::from(vec![Sf::<C>::ZERO; n]), Polynomial::from(vec![Sf::<C>::ONE; n]),
                Polynomial::from_evaluations(&col, &ci.fft_precomputation_n)];
            let mut out = vec![];
            for p in &polys {
                for blind in [true, false].iter() {
                    let r = catch(|| {
                        let mut cs: Vec<PolynomialCommitment<C>> = (0..k).map(|_| p.commit(&ci.pedersen_g_msm_precomputation, ci.pedersen_h, *blind)).collect();
                        cs.extend(plonky::plonk_util::commit_polynomials(&[p.clone(), p.clone()], &ci.pedersen_g_msm_precomputation, ci.pedersen_h, *blind));
                        cs.push(PolynomialCommitment::coeffs_to_commitment(p.coeffs(), &ci.pedersen_g_msm_precomputation, ci.pedersen_h, *blind));
                        cs
                    });
                    match r {
                        Ok(cs) => out.push(json!({"op": "commit", "c": c, "p": fes(p.coeffs()), "blind": blind, "n": n,
                            "cs": cs.iter().map(|x| json!({"P": pt(x.to_affine()), "r": fe(x.randomness)})).collect::<Vec<_>>()})),
                        Err(e) => out.push(failed(c, "commit", e)),
                    }
                }
            }
            out
        }));
        // the opening argument alone, run again from one transcript
        jobs.push(Box::new(move || {
            let col: Vec<_> = s.table.iter().map(|r| r[0]).collect();
            let p = Polynomial::from_evaluations(&col, &ci.fft_precomputation_n);
            let cm = p.commit(&ci.pedersen_g_msm_precomputation, ci.pedersen_h, false);
            let mut out = vec![];
            let mut ops = vec![];
            for _ in 0..k {
                let x = Sf::<C>::from_canonical_usize(1234577);
                let r = catch(|| {
                    let mut ch = plonky::plonk_challenger::Challenger::<C::BaseField>::new(SEC);
                    plonky::halo::batch_opening_proof(&[p.coeffs()], &[cm], &[x], &ci.pedersen_g, ci.pedersen_h.to_projective(), ci.u,
                        x, x, x, n, SEC, &mut ch).map_err(|e| e.to_string())
                }).and_then(|x| x);
                match r {
                    Ok(o) => ops.push(json!({"L": pts(&o.halo_l), "R": pts(&o.halo_r), "G": pt(o.halo_g), "sr": pt(o.schnorr_proof.r),
                        "z1": fe(o.schnorr_proof.z1), "z2": fe(o.schnorr_proof.z2)})),
                    Err(e) => out.push(failed(c, "opening", e)),
                }
            }
            out.push(json!({"op": "ipa", "c": c, "ps": ops}));
            out
        }));
    }
    let m = ss.iter().map(|s| s.vk.degree).max().unwrap();
    (m + 2, go(jobs))
}

fn main() {
    let (cmd, ctx) = start();
    macro_rules! all {
        ($f:ident) => {{
            let (mut hdr, mut recs) = (vec![], vec![]);
            macro_rules! one {
                ($c:expr, $A:ty, $B:ty) => {{
                    let (n, v) = $f::<$A, $B>($c, &ctx);
                    hdr.push(setting::<$A, $B>(n));
                    recs.extend(v);
                }};
            }
            one!(1, Tweedledee, Tweedledum);
            one!(2, Tweedledum, Tweedledee);
            one!(3, Pallas, Vesta);
            one!(4, Vesta, Pallas);
            (hdr, recs)
        }};
    }
    let (hdr, recs): (Vec<Value>, Vec<Value>) = match &cmd[..] {
        "c04" => all!(c04),
        "c05" => all!(c05),
        "c06" => all!(c06),
        "c07" => all!(c07),
        "c08" => all!(c08),
        "c22" => all!(c22),
        _ => unknown(),
    };
    let mut o = Out::new(&format!("{}/hdr.ndjson", ctx.dir));
    for h in hdr {
        o.rec(h);
    }
    let mut o = Out::new(&format!("{}/trace.ndjson", ctx.dir));
    for r in recs {
        o.rec(r);
    }
}
