//! Copies, the permutation, and witness generation (C01, C02).
use plonky::plonk_util::permutation_polynomial;
use plonky::*;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use rayon::prelude::*;
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};
use vh::js::*;
use vh::prover::shift;
use vh::toy::*;

type Sf<C> = <C as Curve>::ScalarField;

/// A target before its circuit exists: a wire, a virtual target or a public input.
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
enum T {
    W(usize, usize),
    V(usize),
    P(usize),
}

struct Shape {
    n: usize,
    off: usize,
    nv: usize,
    npi: usize,
}
impl Shape {
    /// The specification's number of a target.
    fn id(&self, t: T) -> usize {
        match t {
            T::W(g, i) => 9 * g + i + 1,
            T::V(v) => 9 * self.n + v + 1,
            T::P(i) => 9 * self.n + self.nv + i + 1,
        }
    }
}

/// Rows without the three blinding ones, public-input rows, size.
fn shape(rows: usize, nv: usize, npi: usize) -> Shape {
    let off = rows + 3;
    Shape { n: (off + 2 * ((npi + 8) / 9)).next_power_of_two(), off, nv, npi }
}

fn target<C: HaloCurve>(t: T, vs: &[Target<Sf<C>>], ps: &[Target<Sf<C>>]) -> Target<Sf<C>> {
    match t {
        T::W(gate, input) => Target::Wire(Wire { gate, input }),
        T::V(v) => vs[v],
        T::P(p) => ps[p],
    }
}

fn back<F: Field>(t: Target<F>) -> T {
    match t {
        Target::Wire(w) => T::W(w.gate, w.input),
        Target::VirtualTarget(v) => T::V(v.index),
        Target::PublicInput(p) => T::P(p.index),
        _ => unreachable!(),
    }
}

// ------------------------------------------------------------------------------------------ C01

/// Copies of several styles between the wires of the rows, virtual targets and public inputs.
fn copies(s: &Shape, rows: usize, advice: usize, rng: &mut ChaCha8Rng) -> Vec<(T, T)> {
    let wire = |rng: &mut ChaCha8Rng| {
        // any row of the final circuit is a legal target; most are gates
        let g = if rng.gen_range(0, 12) == 0 { rng.gen_range(0, s.n) } else { rng.gen_range(0, rows) };
        T::W(g, rng.gen_range(0, 6))
    };
    let any = |rng: &mut ChaCha8Rng| match rng.gen_range(0, 10) {
        0 | 1 | 2 if s.nv > 0 => T::V(rng.gen_range(0, s.nv)),
        3 | 4 if s.npi > 0 => T::P(rng.gen_range(0, s.npi)),
        _ => wire(rng),
    };
    let mut v = vec![];
    let total = rng.gen_range(0, 3 * s.n);
    while v.len() < total {
        match rng.gen_range(0, 6) {
            0 => {
                // a star
                let h = any(rng);
                for _ in 0..rng.gen_range(1, 9) {
                    let x = any(rng);
                    v.push(if rng.gen() { (h, x) } else { (x, h) });
                }
            }
            1 => {
                // a chain, maybe closed
                let mut x = any(rng);
                let first = x;
                for _ in 0..rng.gen_range(1, 9) {
                    let y = any(rng);
                    v.push((x, y));
                    x = y;
                }
                if rng.gen() {
                    v.push((x, first));
                }
            }
            2 if !v.is_empty() => {
                // again, the other way round, or joining two earlier ones
                let (a, b): (T, T) = v[rng.gen_range(0, v.len())];
                let (c, _) = v[rng.gen_range(0, v.len())];
                v.push(if rng.gen() { (b, a) } else { (a, c) });
            }
            3 => {
                let x = any(rng);
                v.push((x, x));
            }
            _ => v.push((any(rng), any(rng))),
        }
    }
    // wires which are not routed, alone or with a virtual target of their own, or (refused) with more
    for k in 0..advice {
        let a = T::W(rng.gen_range(0, rows), rng.gen_range(6, 9));
        match rng.gen_range(0, 4) {
            0 if s.nv > 0 => v.push((a, T::V(rng.gen_range(0, s.nv)))),
            1 => v.push((a, wire(rng))),
            2 => v.push((a, a)),
            _ if s.nv > k => v.push((T::V(s.nv - 1 - k), a)),
            _ => (),
        }
    }
    v.shuffle(rng);
    v
}

fn build<C: HaloCurve>(rows: usize, s: &Shape, cs: &[(T, T)]) -> Circuit<C> {
    let mut b = CircuitBuilder::<C>::new(128);
    let vs = b.add_virtual_targets(s.nv);
    let ps = b.add_public_inputs(s.npi);
    for i in 0..rows {
        b.add_gate_no_constants(BufferGate::<C>::new(i));
    }
    for &(x, y) in cs {
        b.copy(target::<C>(x, &vs, &ps), target::<C>(y, &vs, &ps));
    }
    b.build()
}

fn horner<F: Field>(c: &[F], x: F) -> F {
    c.iter().rev().fold(F::ZERO, |a, &b| a * x + b)
}

fn wiring<C: HaloCurve>(c: usize, rows: usize, nv: usize, npi: usize, advice: usize, rng: &mut ChaCha8Rng) -> Vec<Value> {
    let s = shape(rows, nv, npi);
    let cs = copies(&s, rows, advice, rng);
    let js: Vec<[usize; 2]> = cs.iter().map(|&(a, b)| [s.id(a), s.id(b)]).collect();
    let head = json!({"op": "wiring", "c": c, "n": s.n, "off": s.off, "nv": nv, "npi": npi, "copies": js});
    let mut out = vec![];
    let circuit = match catch(|| build::<C>(rows, &s, &cs)) {
        Ok(x) => x,
        Err(e) => {
            let mut o = head;
            o["ok"] = json!(true);
            o["refused"] = json!(true);
            o["why"] = json!(e);
            return vec![o];
        }
    };
    let circuit = &circuit;
    let r = catch(|| {
        let sigma = circuit.routing_target_partitions.to_wire_partitions().to_sigma();
        let sv: Vec<Vec<Sf<C>>> = circuit.s_sigma_polynomials.iter().map(|p| circuit.subgroup_n.iter().map(|&x| horner(p.coeffs(), x)).collect()).collect();
        let s8: Vec<Vec<Sf<C>>> = circuit.s_sigma_values_8n.iter().map(|v| (0..s.n).map(|i| v[8 * i]).collect()).collect();
        (circuit.degree(), sigma, sv, s8)
    });
    let mut o = head.clone();
    o["refused"] = json!(false);
    match r {
        Err(e) => {
            o["ok"] = json!(false);
            o["panic"] = json!(e);
            return vec![o];
        }
        Ok((n, sigma, sv, s8)) => {
            o["ok"] = json!(true);
            o["deg"] = json!(n);
            o["sigma"] = json!(sigma);
            o["sv"] = fess(&sv);
            o["s8"] = json!(sv == s8);
            o["root"] = fe(circuit.subgroup_generator_n);
        }
    }
    out.push(o);
    // the running product, for tables constant on the cycles and others
    if s.n > 32 {
        return out;
    }
    let sigma = circuit.routing_target_partitions.to_wire_partitions().to_sigma();
    for kind in 0..4 {
        let mut t: Vec<Vec<Sf<C>>> = vec![vec![Sf::<C>::ZERO; 9]; s.n];
        for j in 0..sigma.len() {
            t[j % s.n][j / s.n] = Sf::<C>::rand_from_rng(rng);
        }
        // constant on the cycles of the permutation the code uses
        let mut done = vec![false; sigma.len()];
        for j in 0..sigma.len() {
            let v = t[j % s.n][j / s.n];
            let mut k = j;
            while !done[k] {
                done[k] = true;
                t[k % s.n][k / s.n] = v;
                k = sigma[k];
            }
        }
        if kind == 1 || kind == 2 {
            // one deviation, on a linked wire if there is one
            let linked: Vec<usize> = (0..sigma.len()).filter(|&j| sigma[j] != j && (kind == 1 || j % s.n == s.n - 1)).collect();
            let j = if linked.is_empty() { rng.gen_range(0, sigma.len()) } else { linked[rng.gen_range(0, linked.len())] };
            t[j % s.n][j / s.n] = t[j % s.n][j / s.n] + Sf::<C>::ONE;
        } else if kind == 3 {
            for j in 0..sigma.len() {
                t[j % s.n][j / s.n] = Sf::<C>::rand_from_rng(rng);
            }
        }
        let (beta, gamma) = (Sf::<C>::rand_from_rng(rng), Sf::<C>::rand_from_rng(rng));
        let mut o = head.clone();
        o["op"] = json!("product");
        o["beta"] = fe(beta);
        o["gamma"] = fe(gamma);
        o["w"] = fess(&t);
        o["root"] = fe(circuit.subgroup_generator_n);
        o["sigma"] = json!(sigma);
        let w = Witness::new(t);
        match catch(|| permutation_polynomial(s.n, &circuit.subgroup_n, &w, &circuit.s_sigma_values_8n, beta, gamma)) {
            Ok(z) => {
                o["ok"] = json!(true);
                o["r"] = fes(&z);
                o["undef"] = json!(false);
            }
            Err(_) => {
                // a factor vanished
                o["ok"] = json!(true);
                o["undef"] = json!(true);
            }
        }
        out.push(o);
    }
    out
}

/// The partitions by themselves: every sequence of merges of four targets.
fn partitions(len: usize, rng: &mut ChaCha8Rng, out: &mut Out) {
    type F = Fp<257>;
    let n = 2;
    let mut seqs: Vec<Vec<(usize, usize)>> = vec![vec![]];
    for _ in 0..len {
        let mut more = vec![];
        for s in &seqs {
            for a in 0..4 {
                for b in 0..4 {
                    let mut t = s.clone();
                    t.push((a, b));
                    more.push(t);
                }
            }
        }
        seqs = more;
    }
    for seq in seqs {
        let mut ts: Vec<T> = (0..n * 9).map(|k| T::W(k / 9, k % 9)).collect();
        ts.push(T::V(0));
        ts.push(T::V(1));
        let s = Shape { n, off: n, nv: 2, npi: 0 };
        let pool = if rng.gen() { [T::W(0, 0), T::W(1, 5), T::V(0), T::W(0, 3)] } else { [T::W(1, 1), T::V(1), T::V(0), T::W(1, 2)] };
        let tg = |t: T| match t {
            T::W(gate, input) => Target::Wire(Wire { gate, input }),
            T::V(index) => Target::VirtualTarget(VirtualTarget { index }),
            T::P(_) => unreachable!(),
        };
        ts.shuffle(rng);
        let js: Vec<[usize; 2]> = seq.iter().map(|&(a, b)| [s.id(pool[a]), s.id(pool[b])]).collect();
        let mut o = json!({"op": "parts", "c": 1, "n": n, "off": n, "nv": 2, "npi": 0, "copies": js});
        // late: some targets join only after merges of others
        match catch(|| {
            let mut p = TargetPartitions::<F>::new();
            let late = |t: &T| !pool.contains(t);
            ts.iter().filter(|t| !late(t)).for_each(|&t| p.add_partition(tg(t)));
            seq.iter().for_each(|&(a, b)| p.merge(tg(pool[a]), tg(pool[b])));
            ts.iter().filter(|t| late(t)).for_each(|&t| p.add_partition(tg(t)));
            let mut members: Vec<(usize, Vec<usize>)> = ts.iter().map(|&t| (s.id(t), p.get_partition(tg(t)).iter().map(|&x| s.id(back(x))).collect())).collect();
            members.sort();
            (members.into_iter().map(|x| x.1).collect::<Vec<_>>(), p.to_wire_partitions().to_sigma())
        }) {
            Ok((m, sigma)) => {
                o["ok"] = json!(true);
                o["members"] = json!(m);
                o["sigma"] = json!(sigma);
            }
            Err(e) => {
                o["ok"] = json!(false);
                o["panic"] = json!(e);
            }
        }
        out.rec(o);
    }
}

// ------------------------------------------------------------------------------------------ C02

/// out = a + sum b_k dep_k + p (product of all deps), for each output (target, a, b, p).
#[derive(Clone)]
struct Gen<F: Field> {
    id: usize,
    deps: Vec<Target<F>>,
    outs: Vec<(Target<F>, F, Vec<F>, F)>,
    log: Arc<Mutex<Vec<usize>>>,
}
impl<F: Field> WitnessGenerator<F> for Gen<F> {
    fn dependencies(&self) -> Vec<Target<F>> {
        self.deps.clone()
    }
    fn generate(&self, _c: &[Vec<F>], w: &PartialWitness<F>) -> PartialWitness<F> {
        self.log.lock().unwrap().push(self.id);
        let v = w.get_targets(&self.deps);
        let mut r = PartialWitness::new();
        for (t, a, b, c) in &self.outs {
            let mut x = *a;
            let mut p = F::ONE;
            for (y, z) in b.iter().zip(&v) {
                x = x + *y * *z;
                p = p * *z;
            }
            r.set_target(*t, x + p * *c);
        }
        r
    }
}

/// A random circuit of generators, gates and copies, declared in a random order.
fn witness<C: HaloCurve>(c: usize, classes: usize, npi: usize, rng: &mut ChaCha8Rng) -> Value {
    let rows = rng.gen_range(classes / 3 + 1, classes + 2);
    let nv = classes + rng.gen_range(0, 4);
    let s = shape(rows, nv, npi);
    // every class gets some targets of its own
    let mut free: Vec<T> = vec![];
    let kinds: Vec<usize> = (0..rows).map(|_| rng.gen_range(0, 4)).collect(); // 2: arithmetic, 3: constant
    for g in 0..rows {
        if kinds[g] < 2 {
            (0..6).for_each(|i| free.push(T::W(g, i)));
        }
    }
    (0..nv - classes).for_each(|v| free.push(T::V(classes + v)));
    (0..npi).for_each(|p| free.push(T::P(p)));
    free.shuffle(rng);
    let mut cls: Vec<Vec<T>> = (0..classes).map(|k| vec![T::V(k)]).collect();
    // the gates' own wires: outputs become sources of fresh classes, inputs join later
    #[derive(Clone)]
    enum Src<F: Field> {
        None,
        Input(F),
        Gen(usize),
        Gate,
    }
    let mut src: Vec<Src<Sf<C>>> = vec![Src::None; classes];
    let mut order: Vec<usize> = (0..classes).collect();
    order.shuffle(rng);
    // in this order classes are computed from earlier ones (or from later ones: then never)
    let (mut gates, mut gens) = (vec![], vec![]);
    let mut arith: Vec<usize> = (0..rows).filter(|&g| kinds[g] == 2).collect();
    let mut consts: Vec<usize> = (0..rows).filter(|&g| kinds[g] == 3).collect();
    let mut k = 0;
    while k < classes {
        let pick = |rng: &mut ChaCha8Rng, k: usize| -> usize {
            if k == 0 || rng.gen_range(0, 25) == 0 { order[rng.gen_range(0, classes)] } else { order[rng.gen_range(k.saturating_sub(8), k)] }
        };
        let me = order[k];
        match rng.gen_range(0, 10) {
            _ if k < 2 => {
                src[me] = Src::Input(Sf::<C>::rand_from_rng(rng));
                k += 1;
            }
            0 => k += 1, // nothing computes this one
            1 => {
                src[me] = Src::Input(Sf::<C>::rand_from_rng(rng));
                k += 1;
            }
            2 | 3 if !arith.is_empty() => {
                let g = arith.pop().unwrap();
                let (a, b, d) = (pick(rng, k), pick(rng, k), pick(rng, k));
                cls[a].push(T::W(g, 0));
                cls[b].push(T::W(g, 1));
                cls[d].push(T::W(g, 2));
                cls[me].push(T::W(g, 3));
                gates.push((g, me, Sf::<C>::rand_from_rng(rng), Sf::<C>::rand_from_rng(rng)));
                src[me] = Src::Gate;
                k += 1;
            }
            4 if !consts.is_empty() => {
                let g = consts.pop().unwrap();
                cls[me].push(T::W(g, 0));
                gates.push((g, me, Sf::<C>::rand_from_rng(rng), Sf::<C>::ZERO));
                src[me] = Src::Gate;
                k += 1;
            }
            _ => {
                let nd = rng.gen_range(0, 4);
                let no = rng.gen_range(1, 4).min(classes - k);
                let deps: Vec<usize> = (0..nd).map(|_| pick(rng, k)).collect();
                let outs: Vec<usize> = order[k..k + no].to_vec();
                for &o in &outs {
                    src[o] = Src::Gen(gens.len());
                }
                gens.push((deps, outs));
                k += no;
            }
        }
    }
    // gates not used: arithmetic without inputs, constants
    let unused: Vec<usize> = arith.into_iter().chain(consts).collect();
    for t in free {
        if rng.gen_range(0, 3) > 0 {
            cls[rng.gen_range(0, classes)].push(t);
        }
    }
    // wires that are not routed may be tied to a class of virtual targets alone
    for g in 0..rows {
        if kinds[g] < 2 && rng.gen_range(0, 3) == 0 {
            let i = rng.gen_range(6, 9);
            if let Some(k) = (0..classes).find(|&k| cls[k].iter().all(|t| matches!(t, T::V(_)))) {
                cls[k].push(T::W(g, i));
            }
        }
    }
    // copies: a random tree per class, and some more
    let mut cs = vec![];
    for m in &mut cls {
        m.shuffle(rng);
        for k in 1..m.len() {
            let j = rng.gen_range(0, k);
            cs.push(if rng.gen() { (m[k], m[j]) } else { (m[j], m[k]) });
        }
        if rng.gen() {
            cs.push((m[0], m[m.len() - 1]));
        }
    }
    cs.shuffle(rng);
    let one = |m: &Vec<T>, rng: &mut ChaCha8Rng| m[rng.gen_range(0, m.len())];
    // inputs on some members
    let mut inputs: Vec<(T, Sf<C>)> = vec![];
    for k in 0..classes {
        if let Src::Input(v) = src[k] {
            let mut m = cls[k].clone();
            m.shuffle(rng);
            let q = if rng.gen_range(0, 3) == 0 { rng.gen_range(1, m.len() + 1) } else { 1 };
            inputs.extend(m[..q].iter().map(|&t| (t, v)));
        }
    }
    let log = Arc::new(Mutex::new(vec![]));
    let mut plan: Vec<(Vec<T>, Vec<(T, Sf<C>, Vec<Sf<C>>, Sf<C>)>)> = gens.iter().map(|(d, o)| {
        (d.iter().map(|&k| one(&cls[k], rng)).collect(), o.iter().map(|&k| {
            (one(&cls[k], rng), Sf::<C>::rand_from_rng(rng), d.iter().map(|_| Sf::<C>::rand_from_rng(rng)).collect(), Sf::<C>::ONE)
        }).collect())
    }).collect();
    // generators which agree with the sources of their outputs: a value known already, or found twice
    for _ in 0..rng.gen_range(0, 2 + classes / 2) {
        let t = |k: usize, rng: &mut ChaCha8Rng| if rng.gen() { cls[k][0] } else { one(&cls[k], rng) };
        match rng.gen_range(0, 4) {
            // one of the others again, through the same or other members
            0 | 1 if !gens.is_empty() => {
                let q = rng.gen_range(0, gens.len());
                let (d, o) = (&gens[q].0, &gens[q].1);
                let mut outs: Vec<_> = plan[q].1.clone();
                let same = rng.gen::<bool>();
                outs.iter_mut().zip(o).for_each(|(x, &k)| if !same { x.0 = t(k, rng) });
                if rng.gen() {
                    outs.truncate(1);
                }
                let deps = if rng.gen() { plan[q].0.clone() } else { d.iter().map(|&k| t(k, rng)).collect() };
                plan.push((deps, outs));
            }
            // a value given otherwise
            2 => {
                let k = rng.gen_range(0, classes);
                let v = match (&src[k], gates.iter().find(|g| g.1 == k && kinds[g.0] == 3)) {
                    (Src::Input(v), _) => *v,
                    (_, Some(g)) => g.2,
                    _ => continue,
                };
                plan.push((vec![], vec![(t(k, rng), v, vec![], Sf::<C>::ZERO)]));
            }
            // one of what it depends on
            _ => {
                let deps: Vec<usize> = (0..rng.gen_range(1, 4)).map(|_| rng.gen_range(0, classes)).collect();
                let q = rng.gen_range(0, deps.len());
                let b = (0..deps.len()).map(|j| if j == q { Sf::<C>::ONE } else { Sf::<C>::ZERO }).collect();
                plan.push((deps.iter().map(|&k| t(k, rng)).collect(), vec![(t(deps[q], rng), Sf::<C>::ZERO, b, Sf::<C>::ZERO)]));
            }
        }
    }
    let mut decl: Vec<usize> = (0..plan.len()).collect();
    decl.shuffle(rng);
    let gate_consts: std::collections::HashMap<usize, (Sf<C>, Sf<C>)> = gates.iter().map(|g| (g.0, (g.2, g.3))).collect();
    let when = rng.gen_range(0, 3);
    let r = catch(|| {
        let mut b = CircuitBuilder::<C>::new(128);
        let vs = b.add_virtual_targets(s.nv);
        let ps = b.add_public_inputs(s.npi);
        let add_gens = |b: &mut CircuitBuilder<C>| {
            for &k in &decl {
                let (d, o) = &plan[k];
                b.add_generator(Gen {
                    id: k,
                    deps: d.iter().map(|&t| target::<C>(t, &vs, &ps)).collect(),
                    outs: o.iter().map(|(t, a, v, p)| (target::<C>(*t, &vs, &ps), *a, v.clone(), *p)).collect(),
                    log: log.clone(),
                });
            }
        };
        let add_copies = |b: &mut CircuitBuilder<C>| {
            for &(x, y) in &cs {
                b.copy(target::<C>(x, &vs, &ps), target::<C>(y, &vs, &ps));
            }
        };
        if when == 0 {
            add_gens(&mut b);
            add_copies(&mut b);
        }
        for i in 0..rows {
            let cfg = gate_consts.get(&i).copied().unwrap_or((Sf::<C>::ZERO, Sf::<C>::ZERO));
            match kinds[i] {
                2 => b.add_gate(ArithmeticGate::<C>::new(i), vec![cfg.0, cfg.1]),
                3 => b.add_gate(ConstantGate::<C>::new(i), vec![cfg.0]),
                _ => b.add_gate_no_constants(BufferGate::<C>::new(i)),
            }
        }
        if when == 1 {
            add_gens(&mut b);
            add_copies(&mut b);
        } else if when == 2 {
            add_copies(&mut b);
            add_gens(&mut b);
        }
        let circuit = b.build();
        let partial = || {
            let mut w = PartialWitness::new();
            for &(t, v) in &inputs {
                w.set_target(target::<C>(t, &vs, &ps), v);
            }
            w
        };
        let w = circuit.generate_partial_witness(partial());
        let runs = log.lock().unwrap().clone();
        let val = |t: T| {
            let t = target::<C>(t, &vs, &ps);
            if w.contains_target(t) { json!([fe(w.get_target(t))]) } else { json!([]) }
        };
        let mut all = vec![];
        (0..9 * s.n).for_each(|k| all.push(val(T::W(k / 9, k % 9))));
        (0..s.nv).for_each(|v| all.push(val(T::V(v))));
        (0..npi).for_each(|p| all.push(val(T::P(p))));
        let t2 = circuit.generate_witness(partial());
        let table: Vec<Vec<Sf<C>>> = (0..s.n).map(|i| (0..9).map(|j| t2.get_indices(i, j)).collect()).collect();
        let cols = t2.transpose();
        let same = (0..s.n).all(|i| (0..9).all(|j| cols[j][i] == table[i][j] && t2.get(Wire { gate: i, input: j }) == table[i][j]));
        (circuit.degree(), runs, all, fess(&table), same)
    });
    let mut gate_js: Vec<Value> = gates.iter().map(|g| json!({"g": g.0, "k": if kinds[g.0] == 2 { "arith" } else { "const" }, "c": [fe(g.2), fe(g.3)]})).collect();
    gate_js.extend(unused.iter().map(|&g| json!({"g": g, "k": if kinds[g] == 2 { "arith" } else { "const" }, "c": [fe(Sf::<C>::ZERO), fe(Sf::<C>::ZERO)]})));
    let mut o = json!({"op": "witness", "c": c, "n": s.n, "off": s.off, "nv": nv, "npi": npi,
        "copies": cs.iter().map(|&(a, b)| [s.id(a), s.id(b)]).collect::<Vec<_>>(),
        "inputs": inputs.iter().map(|&(t, v)| json!([s.id(t), fe(v)])).collect::<Vec<_>>(),
        "gates": gate_js,
        "gens": plan.iter().map(|(d, o)| json!({"d": d.iter().map(|&t| s.id(t)).collect::<Vec<_>>(),
            "o": o.iter().map(|(t, a, v, p)| json!([s.id(*t), fe(*a), fes(v), fe(*p)])).collect::<Vec<_>>()})).collect::<Vec<_>>()});
    match r {
        Ok((n, runs, all, table, same)) => {
            o["ok"] = json!(true);
            o["deg"] = json!(n);
            o["runs"] = json!(runs.iter().map(|k| k + 1).collect::<Vec<_>>());
            o["r"] = Value::Array(all);
            o["table"] = table;
            o["same"] = json!(same);
        }
        Err(e) => {
            o["ok"] = json!(false);
            o["panic"] = json!(e);
        }
    }
    o
}

fn main() {
    let (cmd, ctx) = vh::start();
    let mut rng = ChaCha8Rng::seed_from_u64(ctx.seed);
    let mut out = Out::new(&format!("{}/trace.ndjson", ctx.dir));
    let mut hd = Out::new(&format!("{}/hdr.ndjson", ctx.dir));
    macro_rules! hdr {
        ($($t:ty),*) => { $(hd.rec(json!({"F": field::<Sf<$t>>(), "ks": (0..6).map(|i| fe(shift::<Sf<$t>>(i))).collect::<Vec<_>>()}));)* };
    }
    hdr!(G257, G12289, Tweedledee, Tweedledum, Pallas, Vesta);
    let f = if ctx.thorough { 10 } else { 1 };
    match cmd.as_str() {
        "c01" => {
            partitions(if ctx.thorough { 4 } else { 3 }, &mut rng, &mut out);
            let mut jobs: Vec<Box<dyn Fn(&mut ChaCha8Rng) -> Vec<Value> + Send + Sync>> = vec![];
            for k in 0..200 * f {
                jobs.push(Box::new(move |r| wiring::<G257>(1, 1 + k % 12, k % 7, [0, 1, 9, 10, 7][k % 5], k % 3, r)));
                if k % 2 == 0 {
                    jobs.push(Box::new(move |r| wiring::<G12289>(2, 10 + k % 50, k % 17, [0, 3, 18, 27][k % 4], k % 2, r)));
                }
                if k % 12 == 0 {
                    jobs.push(Box::new(move |r| wiring::<Tweedledee>(3, 4 + k % 6, 4, 9 + k % 3, 0, r)));
                    jobs.push(Box::new(move |r| wiring::<Tweedledum>(4, 4 + k % 6, 4, k % 3, 0, r)));
                    jobs.push(Box::new(move |r| wiring::<Pallas>(5, 4 + k % 6, 4, 8, 1, r)));
                    jobs.push(Box::new(move |r| wiring::<Vesta>(6, 4 + k % 6, 4, 2, 0, r)));
                }
            }
            let seeds: Vec<u64> = jobs.iter().map(|_| rng.gen()).collect();
            let all: Vec<Vec<Value>> = jobs.par_iter().zip(seeds).map(|(j, s)| j(&mut ChaCha8Rng::seed_from_u64(s))).collect();
            all.into_iter().flatten().for_each(|v| out.rec(v));
        }
        "c02" => {
            let mut jobs: Vec<Box<dyn Fn(&mut ChaCha8Rng) -> Value + Send + Sync>> = vec![];
            for k in 0..400 * f {
                jobs.push(Box::new(move |r| witness::<G257>(1, 2 + k % 10, [0, 1, 9, 10, 7][k % 5], r)));
                jobs.push(Box::new(move |r| witness::<G12289>(2, 5 + k % 60, [0, 3, 18, 27][k % 4], r)));
                if k % 15 == 0 {
                    jobs.push(Box::new(move |r| witness::<Tweedledee>(3, 8 + k % 6, 9 + k % 3, r)));
                    jobs.push(Box::new(move |r| witness::<Vesta>(6, 8 + k % 6, 8, r)));
                }
            }
            let seeds: Vec<u64> = jobs.iter().map(|_| rng.gen()).collect();
            let all: Vec<Value> = jobs.par_iter().zip(seeds).map(|(j, s)| j(&mut ChaCha8Rng::seed_from_u64(s))).collect();
            all.into_iter().for_each(|v| out.rec(v));
        }
        _ => vh::unknown(),
    }
}
