//! A reference prover that follows the protocol message by message and can deviate in single steps,
//! and forgeries made from finished proofs.
use crate::js::*;
use num::BigUint;
use plonky::halo::batch_opening_proof;
use plonky::plonk_challenger::Challenger;
use plonky::plonk_util::{halo_g, halo_n, halo_n_mul, powers, reduce_with_powers};
use plonky::*;
use rand::SeedableRng;
use rand_chacha::ChaCha8Rng;
use serde_json::{json, Value};

pub const NW: usize = 9;
pub const NR: usize = 6;
pub const SEC: usize = 128;

pub fn shift<F: Field>(i: usize) -> F {
    F::rand_from_rng(&mut ChaCha8Rng::seed_from_u64(i as u64))
}

/// Where the prover deviates.
#[derive(Clone)]
pub struct Dev<F: Field> {
    /// Scale Z by a constant.
    pub z_scale: Option<F>,
    /// Leave a vanishing term out of the quotient.
    pub drop: Option<usize>,
    /// Adjust the opening of the first quotient chunk so that the quotient identity holds.
    pub fix_t: bool,
    /// Adjust the opening of the public-input quotient so that its identity holds.
    pub fix_q: bool,
    /// Alter the opened value (opening set, position) by a difference.
    pub open: Vec<(usize, usize, F)>,
    /// Do not observe the challenges of old proofs.
    pub unbound: bool,
    pub blind: bool,
}

impl<F: Field> Dev<F> {
    pub fn none() -> Self {
        Dev { z_scale: None, drop: None, fix_t: false, fix_q: false, open: vec![], unbound: false, blind: true }
    }
}

/// An old proof together with the polynomial the prover opens for it.
pub struct Old<C: HaloCurve> {
    pub o: OldProof<C>,
    pub coeffs: Vec<C::ScalarField>,
}

impl<C: HaloCurve> Clone for Old<C> {
    fn clone(&self) -> Self {
        Old { o: self.o.clone(), coeffs: self.coeffs.clone() }
    }
}

fn terms<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(
    n: usize,
    x: C::ScalarField,
    k: &[C::ScalarField],
    s: &[C::ScalarField],
    w: &[Vec<C::ScalarField>; 3],
    z: (C::ScalarField, C::ScalarField),
    beta: C::ScalarField,
    gamma: C::ScalarField,
) -> Vec<C::ScalarField> {
    let one = C::ScalarField::ONE;
    let zn = x.exp_usize(n) - one;
    let l1 = if x == one { one } else { zn / (C::ScalarField::from_canonical_usize(n) * (x - one)) };
    let (mut f, mut g) = (one, one);
    for i in 0..NR {
        f = f * (w[0][i] + beta * shift::<C::ScalarField>(i) * x + gamma);
        g = g * (w[0][i] + beta * s[i] + gamma);
    }
    let mut t = vec![l1 * (z.0 - one), f * z.0 - g * z.1];
    t.extend(evaluate_all_constraints::<C, I>(k, &w[0], &w[1], &w[2]));
    t
}

fn bf<C: HaloCurve>(x: C::ScalarField) -> Result<C::BaseField, String> {
    C::try_convert_s2b(x).map_err(|_| "does not fit".to_string())
}
fn sf<C: HaloCurve>(x: C::BaseField) -> Result<C::ScalarField, String> {
    C::try_convert_b2s(x).map_err(|_| "does not fit".to_string())
}

/// The running product of the permutation argument.
pub fn z_poly<C: HaloCurve>(
    c: &Circuit<C>,
    table: &[Vec<C::ScalarField>],
    beta: C::ScalarField,
    gamma: C::ScalarField,
    scale: Option<C::ScalarField>,
) -> Polynomial<C::ScalarField> {
    let one = C::ScalarField::ONE;
    let n = c.degree();
    let sig = sigma_values(c);
    let mut zs = vec![scale.unwrap_or(one)];
    for i in 0..n - 1 {
        let (mut f, mut h) = (one, one);
        for j in 0..NR {
            f = f * (table[i][j] + beta * shift::<C::ScalarField>(j) * c.subgroup_n[i] + gamma);
            h = h * (table[i][j] + beta * sig[j][i] + gamma);
        }
        zs.push(zs[i] * f / h);
    }
    Polynomial::from_evaluations(&zs, &c.fft_precomputation_n)
}

pub fn sigma_values<C: HaloCurve>(c: &Circuit<C>) -> Vec<Vec<C::ScalarField>> {
    c.s_sigma_values_8n.iter().map(|v| v.iter().step_by(8).cloned().collect()).collect()
}

/// The chunks of the quotient by X^n - 1, dropping the remainder.
pub fn t_polys<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(
    c: &Circuit<C>,
    wires: &[Polynomial<C::ScalarField>],
    z: &Polynomial<C::ScalarField>,
    alpha: C::ScalarField,
    beta: C::ScalarField,
    gamma: C::ScalarField,
    drop: Option<usize>,
) -> Vec<Polynomial<C::ScalarField>> {
    let zero = C::ScalarField::ZERO;
    let n = c.degree();
    let lde = |p: &Polynomial<C::ScalarField>| p.padded(8 * n).eval_domain(&c.fft_precomputation_8n);
    let w8: Vec<Vec<C::ScalarField>> = wires.iter().map(|p| lde(p)).collect();
    let z8 = lde(z);
    let vals: Vec<C::ScalarField> = (0..8 * n)
        .map(|i| {
            let at = |k: usize| w8.iter().map(|v| v[(i + k) % (8 * n)]).collect::<Vec<_>>();
            let k: Vec<_> = c.constants_8n.iter().map(|v| v[i]).collect();
            let s: Vec<_> = c.s_sigma_values_8n.iter().map(|v| v[i]).collect();
            let mut t = terms::<C, I>(n, c.subgroup_8n[i], &k, &s, &[at(0), at(8), at(8 * 65)], (z8[i], z8[(i + 8) % (8 * n)]), beta, gamma);
            if let Some(d) = drop {
                if d < t.len() {
                    t[d] = zero;
                }
            }
            reduce_with_powers(&t, alpha)
        })
        .collect();
    let v = Polynomial::from_evaluations(&vals, &c.fft_precomputation_8n);
    let mut t = vec![zero; 7 * n];
    let vc = v.coeffs();
    for i in (0..7 * n).rev() {
        let hi = if i + n < 7 * n { t[i + n] } else { zero };
        t[i] = hi + if i + n < vc.len() { vc[i + n] } else { zero };
    }
    t.chunks(n).map(|x| Polynomial::from(x.to_vec())).collect()
}

pub fn pi_rows<C: HaloCurve>(c: &Circuit<C>, npi: usize) -> Vec<usize> {
    (0..(npi + NW - 1) / NW).map(|i| c.num_gates_without_pis + 2 * i).collect()
}

/// The public-input quotient, dropping the remainder.
pub fn q_poly<C: HaloCurve>(
    c: &Circuit<C>,
    cols: &[Vec<C::ScalarField>],
    pis: &[C::ScalarField],
    alpha: C::ScalarField,
) -> Polynomial<C::ScalarField> {
    let zero = C::ScalarField::ZERO;
    let n = c.degree();
    let rows = pi_rows(c, pis.len());
    let mut d = cols.to_vec();
    for (i, &r) in rows.iter().enumerate() {
        for j in 0..NW {
            d[j][r] = d[j][r] - pis.get(NW * i + j).cloned().unwrap_or(zero);
        }
    }
    let comb: Vec<C::ScalarField> =
        (0..n).map(|i| reduce_with_powers(&d.iter().map(|v| v[i]).collect::<Vec<_>>(), alpha)).collect();
    let mut q = Polynomial::from_evaluations(&comb, &c.fft_precomputation_n).coeffs().to_vec();
    for &r in &rows {
        // synthetic division by X - a
        let a = c.subgroup_n[r];
        let mut nq = vec![zero; n];
        let mut carry = zero;
        for i in (0..q.len()).rev() {
            let x = q[i] + a * carry;
            if i > 0 {
                nq[i - 1] = x;
            }
            carry = x;
        }
        q = nq;
    }
    Polynomial::from(q)
}

/// `table` is the wire table (rows of nine), `pis` the claimed public inputs.
pub fn prove<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(
    c: &Circuit<C>,
    table: &[Vec<C::ScalarField>],
    pis: &[C::ScalarField],
    olds: &[Old<C>],
    dev: &Dev<C::ScalarField>,
) -> Result<Proof<C>, String> {
    type P<C> = Polynomial<<C as Curve>::ScalarField>;
    let (zero, one) = (C::ScalarField::ZERO, C::ScalarField::ONE);
    let n = c.degree();
    let g = c.subgroup_generator_n;
    let commit = |p: &P<C>| p.commit(&c.pedersen_g_msm_precomputation, c.pedersen_h, dev.blind);
    let interpolate = |v: &[C::ScalarField]| Polynomial::from_evaluations(v, &c.fft_precomputation_n);

    let mut ch = Challenger::<C::BaseField>::new(SEC);
    for &x in pis {
        ch.observe_element(bf::<C>(x)?);
    }
    let cols: Vec<Vec<C::ScalarField>> = (0..NW).map(|j| table.iter().map(|r| r[j]).collect()).collect();
    let wires: Vec<P<C>> = cols.iter().map(|v| interpolate(v)).collect();
    let c_wires: Vec<_> = wires.iter().map(|p| commit(p)).collect();
    for p in &c_wires {
        ch.observe_affine_point(p.to_affine());
    }
    let beta = sf::<C>(ch.get_challenge())?;
    let gamma = sf::<C>(ch.get_challenge())?;

    let z = z_poly::<C>(c, table, beta, gamma, dev.z_scale);
    let c_z = commit(&z);
    ch.observe_affine_point(c_z.to_affine());
    let alpha = sf::<C>(ch.get_challenge())?;

    let ts = t_polys::<C, I>(c, &wires, &z, alpha, beta, gamma, dev.drop);
    let c_ts: Vec<_> = ts.iter().map(|p| commit(p)).collect();

    let rows = pi_rows(c, pis.len());
    let q = q_poly::<C>(c, &cols, pis, alpha);
    let c_q = commit(&q);

    for p in &c_ts {
        ch.observe_affine_point(p.to_affine());
    }
    ch.observe_affine_point(c_q.to_affine());
    for o in olds {
        ch.observe_affine_point(o.o.halo_g);
        for &x in o.o.halo_us.iter().filter(|_| !dev.unbound) {
            ch.observe_element(bf::<C>(x)?);
        }
    }
    let zeta = sf::<C>(ch.get_challenge())?;

    let pts = vec![zeta, zeta * g, zeta * g.exp_usize(65)];
    let ev = |p: &[C::ScalarField], x: C::ScalarField| reduce_with_powers(p, x);
    let mut os: Vec<OpeningSet<C::ScalarField>> = pts
        .iter()
        .map(|&x| OpeningSet {
            o_constants: c.constant_polynomials.iter().map(|p| ev(p.coeffs(), x)).collect(),
            o_plonk_sigmas: c.s_sigma_polynomials.iter().map(|p| ev(p.coeffs(), x)).collect(),
            o_wires: wires.iter().map(|p| ev(p.coeffs(), x)).collect(),
            o_plonk_z: ev(z.coeffs(), x),
            o_plonk_t: ts.iter().map(|p| ev(p.coeffs(), x)).collect(),
            o_old_proofs: olds.iter().map(|o| ev(&o.coeffs, x)).collect(),
            o_pi_quotient: ev(q.coeffs(), x),
        })
        .collect();
    for &(k, p, dl) in &dev.open {
        alter(&mut os[k], p, dl);
    }
    let zn = zeta.exp_usize(n);
    if dev.fix_t {
        let t = terms::<C, I>(n, zeta, &os[0].o_constants, &os[0].o_plonk_sigmas,
            &[os[0].o_wires.clone(), os[1].o_wires.clone(), os[2].o_wires.clone()], (os[0].o_plonk_z, os[1].o_plonk_z), beta, gamma);
        let want = reduce_with_powers(&t, alpha) / (zn - one);
        let have = reduce_with_powers(&os[0].o_plonk_t, zn);
        os[0].o_plonk_t[0] = os[0].o_plonk_t[0] + want - have;
    }
    if dev.fix_q {
        let mut pv = zero;
        for (i, &r) in rows.iter().enumerate() {
            let w = c.subgroup_n[r];
            let row: Vec<_> = (0..NW).map(|j| pis.get(NW * i + j).cloned().unwrap_or(zero)).collect();
            pv = pv + reduce_with_powers(&row, alpha) * w * (zn - one) / (C::ScalarField::from_canonical_usize(n) * (zeta - w));
        }
        let den = rows.iter().fold(one, |a, &r| a * (zeta - c.subgroup_n[r]));
        os[0].o_pi_quotient = (reduce_with_powers(&os[0].o_wires, alpha) - pv) / den;
    }
    for o in &os {
        for x in o.to_vec() {
            ch.observe_element(bf::<C>(x)?);
        }
    }
    let v = sf::<C>(ch.get_challenge())?;
    let u = sf::<C>(ch.get_challenge())?;
    let us = sf::<C>(ch.get_challenge())?;

    let mut polys: Vec<Vec<C::ScalarField>> = vec![];
    let mut comms: Vec<PolynomialCommitment<C>> = vec![];
    let mut put = |ps: &[P<C>], cs: &[PolynomialCommitment<C>]| {
        for (p, c) in ps.iter().zip(cs) {
            polys.push(p.coeffs().to_vec());
            comms.push(*c);
        }
    };
    put(&c.constant_polynomials, &c.c_constants);
    put(&c.s_sigma_polynomials, &c.c_s_sigmas);
    put(&wires, &c_wires);
    put(&[z], &[c_z]);
    put(&ts, &c_ts);
    for o in olds {
        put(&[Polynomial::from(o.coeffs.clone())], &[o.o.halo_g.into()]);
    }
    put(&[q], &[c_q]);
    let op = batch_opening_proof(
        &polys.iter().map(|p| &p[..]).collect::<Vec<_>>(),
        &comms,
        &pts,
        &c.pedersen_g,
        c.pedersen_h.to_projective(),
        c.u,
        u,
        v,
        us,
        n,
        SEC,
        &mut ch,
    )
    .map_err(|e| e.to_string())?;
    let aff = |v: &[PolynomialCommitment<C>]| v.iter().map(|c| c.to_affine()).collect::<Vec<_>>();
    Ok(Proof {
        c_wires: aff(&c_wires),
        c_plonk_z: c_z.to_affine(),
        c_plonk_t: aff(&c_ts),
        c_pis_quotient: c_q.to_affine(),
        o_local: os[0].clone(),
        o_right: os[1].clone(),
        o_below: os[2].clone(),
        halo_l: op.halo_l,
        halo_r: op.halo_r,
        halo_g: op.halo_g,
        schnorr_proof: op.schnorr_proof,
    })
}

/// The opened values in the order of `to_vec`.
pub fn slots<F: Field>(o: &mut OpeningSet<F>) -> Vec<&mut F> {
    let mut v: Vec<&mut F> = vec![];
    v.extend(o.o_constants.iter_mut());
    v.extend(o.o_plonk_sigmas.iter_mut());
    v.extend(o.o_wires.iter_mut());
    v.push(&mut o.o_plonk_z);
    v.extend(o.o_plonk_t.iter_mut());
    v.extend(o.o_old_proofs.iter_mut());
    v.push(&mut o.o_pi_quotient);
    v
}

pub fn alter<F: Field>(o: &mut OpeningSet<F>, i: usize, d: F) {
    let mut v = slots(o);
    *v[i] = *v[i] + d;
}

/// A proof whose final point is chosen so that the deferred verification accepts it, whatever its openings.
pub fn forge_g<C: HaloCurve>(
    vk: &VerificationKey<C>,
    pis: &[C::ScalarField],
    pf: &Proof<C>,
    olds: &[OldProof<C>],
) -> Result<Proof<C>, String> {
    let ch = pf.get_challenges(pis, olds).map_err(|e| e.to_string())?;
    let bits = |x: C::ScalarField| x.to_canonical_bool_vec()[..SEC].to_vec();
    let n = vk.degree;
    let root = C::ScalarField::primitive_root_of_unity(n.trailing_zeros() as usize);
    let mut cs: Vec<AffinePoint<C>> = vec![];
    cs.extend(&vk.c_constants);
    cs.extend(&vk.c_s_sigmas);
    cs.extend(&pf.c_wires);
    cs.push(pf.c_plonk_z);
    cs.extend(&pf.c_plonk_t);
    cs.extend(olds.iter().map(|o| o.halo_g));
    cs.push(pf.c_pis_quotient);
    let ss: Vec<_> = powers(ch.u, cs.len()).into_iter().map(|x| halo_n::<C>(&bits(x))).collect();
    let vals: Vec<_> = pf.all_opening_sets().iter().map(|o| C::ScalarField::inner_product(&o.to_vec(), &ss)).collect();
    let val = reduce_with_powers(&vals, ch.v);
    let u = halo_n_mul(&bits(ch.u_scaling), blake_hash_usize_to_curve::<C>(n + 1)).to_projective();
    let h = blake_hash_usize_to_curve::<C>(n).to_projective();
    let mut q = C::convert(val) * u;
    for (s, c) in ss.iter().zip(&cs) {
        q = q + C::convert(*s) * c.to_projective();
    }
    for (k, x) in ch.halo_us.iter().enumerate() {
        q = q + C::convert(x.square()) * pf.halo_l[k].to_projective();
        q = q + C::convert(x.multiplicative_inverse().unwrap().square()) * pf.halo_r[k].to_projective();
    }
    let pts = vec![ch.zeta, ch.zeta * root, ch.zeta * root.exp_usize(65)];
    let b = reduce_with_powers(&pts.iter().map(|&x| halo_g(x, &ch.halo_us)).collect::<Vec<_>>(), ch.v);
    let sp = pf.schnorr_proof;
    let rhs = C::convert(ch.schnorr_challenge) * q + sp.r.to_projective() + C::convert(C::ScalarField::ZERO - sp.z2) * h;
    let g = C::convert(sp.z1.multiplicative_inverse().ok_or("z1 is zero")?) * rhs + C::convert(C::ScalarField::ZERO - b) * u;
    let mut out = pf.clone();
    out.halo_g = g.to_affine();
    Ok(out)
}

// ---------------------------------------------------------------------------- encoding

pub fn opening_js<F: Field>(o: &OpeningSet<F>) -> Value {
    json!({"c": fes(&o.o_constants), "s": fes(&o.o_plonk_sigmas), "w": fes(&o.o_wires), "z": fe(o.o_plonk_z),
        "t": fes(&o.o_plonk_t), "o": fes(&o.o_old_proofs), "q": fe(o.o_pi_quotient)})
}

pub fn proof_js<C: HaloCurve>(p: &Proof<C>) -> Value {
    json!({"cw": pts(&p.c_wires), "cz": pt(p.c_plonk_z), "ct": pts(&p.c_plonk_t), "cq": pt(p.c_pis_quotient),
        "os": [opening_js(&p.o_local), opening_js(&p.o_right), opening_js(&p.o_below)],
        "L": pts(&p.halo_l), "R": pts(&p.halo_r), "G": pt(p.halo_g),
        "sr": pt(p.schnorr_proof.r), "z1": fe(p.schnorr_proof.z1), "z2": fe(p.schnorr_proof.z2)})
}

pub fn olds_js<C: HaloCurve>(v: &[OldProof<C>]) -> Value {
    Value::Array(v.iter().map(|o| json!({"g": pt(o.halo_g), "us": fes(&o.halo_us)})).collect())
}

pub fn vk_js<C: HaloCurve>(k: &VerificationKey<C>) -> Value {
    json!({"cc": pts(&k.c_constants), "cs": pts(&k.c_s_sigmas), "n": k.degree, "npi": k.num_public_inputs,
        "off": k.num_gates_without_pis, "sec": k.security_bits,
        "root": fe(C::ScalarField::primitive_root_of_unity(k.degree.trailing_zeros() as usize))})
}

/// Rescue's parameters over a field, computed here: exponents, and constants from the same generator.
pub fn rescue_js<F: Field>(sec: usize, width: usize) -> Value {
    let p1 = order::<F>() - 1u32;
    let alpha = big(F::ALPHA);
    let inv = modinv(&alpha, &p1);
    let rounds = std::cmp::max(10, (sec + 2 * width - 1) / (2 * width));
    let mut rng = ChaCha8Rng::seed_from_u64(1337);
    let ks: Vec<Value> = (0..rounds)
        .map(|_| {
            let a: Vec<F> = (0..width).map(|_| F::rand_from_rng(&mut rng)).collect();
            let b: Vec<F> = (0..width).map(|_| F::rand_from_rng(&mut rng)).collect();
            json!([fes(&a), fes(&b)])
        })
        .collect();
    let num = |n: &BigUint| if is_big::<F>() { digits(n) } else { json!(n.to_u64_digits().get(0).cloned().unwrap_or(0)) };
    json!({"F": field::<F>(), "alpha": num(&alpha), "inv": num(&inv), "ks": ks, "w": width})
}

pub fn modinv(a: &BigUint, m: &BigUint) -> BigUint {
    use num::BigInt;
    let (m, zero) = (BigInt::from(m.clone()), BigInt::from(0));
    let (mut r0, mut r1) = (m.clone(), BigInt::from(a.clone()) % &m);
    let (mut t0, mut t1) = (zero.clone(), BigInt::from(1));
    while r1 != zero {
        let q = &r0 / &r1;
        let (r, t) = (&r0 - &q * &r1, &t0 - &q * &t1);
        r0 = r1;
        r1 = r;
        t0 = t1;
        t1 = t;
    }
    (((t0 % &m) + &m) % &m).to_biguint().unwrap()
}

/// The setting of a curve: everything the specification needs which is not part of a key.
pub fn setting<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(npoints: usize) -> Value {
    json!({"E": curve::<C>(), "zetas": fe(C::ZETA_SCALAR), "R": rescue_js::<C::BaseField>(SEC, 4),
        "GA": fe(I::A), "Gzeta": fe(I::ZETA),
        "ks": (0..NR).map(|i| fe(shift::<C::ScalarField>(i))).collect::<Vec<_>>(),
        "gs": pts(&(0..npoints).map(blake_hash_usize_to_curve::<C>).collect::<Vec<_>>())})
}

/// Verify and describe: the challenges the code derives (if any), the verdict, and what deferring returns.
pub fn verify_rec<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(
    op: &str,
    c: usize,
    vk: &VerificationKey<C>,
    pis: &[C::ScalarField],
    pf: &Proof<C>,
    olds: &[OldProof<C>],
    deep: bool,
) -> Value {
    let ch = catch(|| pf.get_challenges(pis, olds).ok());
    let r = catch(|| verify_proof::<C, I>(pis, pf, olds, vk, deep));
    let mut o = json!({"op": op, "c": c, "vk": vk_js(vk), "pis": fes(pis), "pf": proof_js(pf), "old": olds_js(olds), "deep": deep});
    match &r {
        Ok(Ok(None)) => { o["res"] = json!("accept"); o["next"] = json!([]); }
        Ok(Ok(Some(x))) => { o["res"] = json!("accept"); o["next"] = olds_js(&[x.clone()]); }
        Ok(Err(e)) => { o["res"] = json!("reject"); o["msg"] = json!(e.to_string()); o["next"] = json!([]); }
        Err(e) => { o["res"] = json!("panic"); o["msg"] = json!(e); o["next"] = json!([]); }
    }
    o["ch"] = ch_js(ch);
    o
}

fn ch_js<C: HaloCurve>(ch: Result<Option<plonky::ProofChallenge<C>>, String>) -> Value {
    match ch {
        Ok(Some(h)) => json!({"ok": true, "beta": fe(h.beta), "gamma": fe(h.gamma), "alpha": fe(h.alpha), "zeta": fe(h.zeta),
            "v": fe(h.v), "u": fe(h.u), "us": fe(h.u_scaling), "rs": fes(&h.halo_us), "sch": fe(h.schnorr_challenge)}),
        Ok(None) => json!({"ok": false, "panic": false, "rs": []}),
        Err(_) => json!({"ok": false, "panic": true, "rs": []}),
    }
}

/// The challenges alone.
pub fn chal_rec<C: HaloCurve>(c: usize, what: &str, pis: &[C::ScalarField], pf: &Proof<C>, olds: &[OldProof<C>]) -> Value {
    let ch = catch(|| pf.get_challenges(pis, olds).ok());
    json!({"op": "chal", "c": c, "what": what, "pis": fes(pis), "pf": proof_js(pf), "old": olds_js(olds), "ch": ch_js::<C>(ch)})
}
