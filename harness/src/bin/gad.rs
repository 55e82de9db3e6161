//! Circuits built from gadgets, their rows and wiring, and the tables generated for them (C11, C19, C20).
use num::{BigUint, One};
use plonky::*;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use rayon::prelude::*;
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::collections::HashMap;
use vh::js::*;
use vh::prover::modinv;
use vh::pts::*;
use vh::toy::*;

#[allow(dead_code)]
type Sf<C> = <C as Curve>::ScalarField;
type Rngs = ChaCha8Rng;

fn fb<F: Field>(x: F) -> Value {
    digits(&big(x))
}

/// A value of a program.
#[derive(Clone)]
enum V<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>> {
    F(Target<Sf<C>>),
    Pt(AffinePointTarget<I>),
    Ord(OrderingTarget<Sf<C>>),
    Int(BigIntTarget<Sf<C>>),
}

impl<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>> V<C, I> {
    fn f(&self) -> Target<Sf<C>> {
        if let V::F(t) = self { *t } else { panic!("not an element") }
    }
    fn pt(&self) -> AffinePointTarget<I> {
        if let V::Pt(t) = self { *t } else { panic!("not a point") }
    }
    fn int(&self) -> &BigIntTarget<Sf<C>> {
        if let V::Int(t) = self { t } else { panic!("not a number") }
    }
    fn targets(&self) -> Vec<Target<Sf<C>>> {
        match self {
            V::F(t) => vec![*t],
            V::Pt(p) => vec![p.x, p.y],
            V::Ord(o) => vec![o.lt, o.eq, o.gt],
            V::Int(b) => b.limbs.clone(),
        }
    }
    fn ty(&self) -> &'static str {
        match self { V::F(_) => "f", V::Pt(_) => "pt", V::Ord(_) => "ord", V::Int(_) => "int" }
    }
}

/// An input of a program: how its target is declared, or the bound of a number.
#[derive(Clone, Debug)]
enum In {
    Virt,
    Pi,
    Pt,
    Int(BigUint),
}

/// A step: gadget, operands, parameters.
#[derive(Clone, Debug)]
struct Step<F: Field> {
    g: &'static str,
    a: Vec<usize>,
    par: Par<F>,
}
#[derive(Clone, Debug)]
enum Par<F: Field> {
    No,
    F(F),
    Pt(F, F),
    N(usize),
    Ord(Ordering),
    Int(BigUint),
}
fn s<F: Field>(g: &'static str, a: &[usize]) -> Step<F> {
    Step { g, a: a.to_vec(), par: Par::No }
}
fn sp<F: Field>(g: &'static str, a: &[usize], par: Par<F>) -> Step<F> {
    Step { g, a: a.to_vec(), par }
}
fn par_js<F: Field>(p: &Par<F>) -> Value {
    match p {
        Par::No => json!([]),
        Par::F(x) => json!([fb(*x)]),
        Par::Pt(x, y) => json!([fb(*x), fb(*y)]),
        Par::N(n) => json!([n]),
        Par::Ord(o) => json!([*o as i32]),
        Par::Int(n) => json!([digits(n)]),
    }
}

fn apply<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(b: &mut CircuitBuilder<C>, v: &[V<C, I>], st: &Step<Sf<C>>) -> Vec<V<C, I>> {
    let f = |k: usize| v[st.a[k]].f();
    let fs = || -> Vec<Target<Sf<C>>> { st.a.iter().map(|&k| v[k].f()).collect() };
    let p = |k: usize| v[st.a[k]].pt();
    let n = |k: usize| v[st.a[k]].int();
    let ns = || -> Vec<BigIntTarget<Sf<C>>> { st.a.iter().map(|&k| v[k].int().clone()).collect() };
    let one = |t: Target<Sf<C>>| vec![V::F(t)];
    let ff = |x: &BigIntTarget<Sf<C>>| {
        let mut t = ForeignFieldTarget::<Sf<C>, C::BaseField>::zero();
        t.value = x.clone();
        t
    };
    match (st.g, &st.par) {
        ("const", Par::F(c)) => one(b.constant_wire(*c)),
        ("add", _) => one(b.add(f(0), f(1))),
        ("sub", _) => one(b.sub(f(0), f(1))),
        ("mul", _) => one(b.mul(f(0), f(1))),
        ("mul_add", _) => one(b.mul_add(f(0), f(1), f(2))),
        ("mul_sub", _) => one(b.mul_sub(f(0), f(1), f(2))),
        ("neg", _) => one(b.neg(f(0))),
        ("double", _) => one(b.double(f(0))),
        ("square", _) => one(b.square(f(0))),
        ("inv", _) => one(b.inv(f(0))),
        ("div", _) => one(b.div(f(0), f(1))),
        ("exp", Par::F(e)) => one(b.exp_constant(f(0), *e)),
        ("exp", Par::Int(e)) => one(b.exp_constant_usize(f(0), e.to_u64_digits().get(0).cloned().unwrap_or(0) as usize)),
        ("add_many", _) => one(b.add_many(&fs())),
        ("mul_many", _) => one(b.mul_many(&fs())),
        ("select", _) => one(b.select(f(0), f(1), f(2))),
        ("not", _) => one(b.not(f(0))),
        ("is_zero", _) => one(b.is_zero(f(0))),
        ("is_nonzero", _) => one(b.is_nonzero(f(0))),
        ("is_equal", _) => one(b.is_equal(f(0), f(1))),
        ("is_not_equal", _) => one(b.is_not_equal(f(0), f(1))),
        ("sqrt", _) => one(b.deterministic_square_root(f(0))),
        ("assert_zero", _) => { b.assert_zero(f(0)); vec![] }
        ("assert_one", _) => { b.assert_one(f(0)); vec![] }
        ("assert_binary", _) => { b.assert_binary(f(0)); vec![] }
        ("assert_nonzero", _) => { b.assert_nonzero(f(0)); vec![] }
        ("assert_all_base_4", _) => { b.assert_all_base_4(&fs()); vec![] }
        ("copy", _) => { b.copy(f(0), f(1)); vec![] }
        ("conditional_copy", _) => { b.conditional_copy(f(0), f(1), f(2)); vec![] }
        ("ordering_assert_valid", _) => { b.ordering_assert_valid(OrderingTarget { lt: f(0), eq: f(1), gt: f(2) }); vec![] }
        ("constant_ordering", Par::Ord(o)) => vec![V::Ord(b.constant_ordering(*o))],
        ("hash", Par::N(1)) => one(b.rescue_hash_n_to_1(&fs())),
        ("hash", Par::N(2)) => { let (x, y) = b.rescue_hash_n_to_2(&fs()); vec![V::F(x), V::F(y)] }
        ("hash", Par::N(3)) => { let (x, y, z) = b.rescue_hash_n_to_3(&fs()); vec![V::F(x), V::F(y), V::F(z)] }
        ("hash", Par::N(k)) => b.rescue_sponge(&fs(), *k).into_iter().map(V::F).collect(),
        ("permutation", _) => b.rescue_permutation(&fs()).into_iter().map(V::F).collect(),
        ("constant_point", Par::Pt(x, y)) => vec![V::Pt(b.constant_affine_point(AffinePoint::<I> { x: *x, y: *y, zero: false }))],
        ("curve_assert_valid", _) => { b.curve_assert_valid::<I>(p(0)); vec![] }
        ("curve_neg", _) => vec![V::Pt(b.curve_neg::<I>(p(0)))],
        ("curve_add", _) => vec![V::Pt(b.curve_add::<I>(p(0), p(1)))],
        ("curve_sub", _) => vec![V::Pt(b.curve_sub::<I>(p(0), p(1)))],
        ("curve_double", _) => vec![V::Pt(b.curve_double::<I>(p(0)))],
        ("copy_curve", _) => { b.copy_curve::<I>(p(0), p(1)); vec![] }
        ("curve_msm", Par::N(1)) => vec![V::Pt(b.curve_mul::<I>(CurveMulOp { scalar: f(0), point: p(1) }))],
        ("curve_msm", _) => {
            let parts: Vec<CurveMulOp<C, I>> = (0..st.a.len() / 2).map(|k| CurveMulOp { scalar: f(2 * k), point: p(2 * k + 1) }).collect();
            vec![V::Pt(b.curve_msm::<I>(&parts))]
        }
        ("curve_mul_endo", _) => {
            let r = b.curve_mul_endo::<I>(CurveMulOp { scalar: f(0), point: p(1) });
            vec![V::Pt(r.mul_result), V::F(r.actual_scalar)]
        }
        ("curve_mul_inv_endo", _) => {
            let r = b.curve_mul_inv_endo::<I>(CurveMulOp { scalar: f(0), point: p(1) });
            vec![V::Pt(r.mul_result), V::F(r.actual_scalar)]
        }
        ("constant_bigint", Par::Int(x)) => vec![V::Int(b.constant_bigint(x))],
        ("bigint_add", _) => vec![V::Int(if st.a.len() == 2 { b.bigint_add(n(0), n(1)) } else { b.bigint_add_many(&ns()) })],
        ("bigint_mul", _) => vec![V::Int(b.bigint_mul(n(0), n(1)))],
        ("bigint_div_rem", _) => { let (q, r) = b.bigint_div_rem(n(0), n(1)); vec![V::Int(q), V::Int(r)] }
        ("bigint_div", _) => vec![V::Int(b.bigint_div(n(0), n(1)))],
        ("bigint_rem", _) => vec![V::Int(b.bigint_rem(n(0), n(1)))],
        ("bigint_cmp", _) => vec![V::Ord(b.bigint_cmp(n(0), n(1)))],
        ("copy_bigint", _) => { b.copy_bigint(n(0), n(1)); vec![] }
        ("foreign_add", _) => {
            let xs: Vec<_> = st.a.iter().map(|&k| ff(v[k].int())).collect();
            let r = if xs.len() == 2 { b.foreign_field_add::<C::BaseField>(&xs[0], &xs[1]) } else { b.foreign_field_add_many::<C::BaseField>(&xs) };
            vec![V::Int(r.value)]
        }
        ("foreign_mul", _) => vec![V::Int(b.foreign_field_mul::<C::BaseField>(&ff(n(0)), &ff(n(1))).value)],
        _ => panic!("no such gadget: {}", st.g),
    }
}

/// A value of an input: elements (one, two coordinates, or limbs).
type Val<F> = Vec<F>;

struct Built<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>> {
    circuit: Circuit<C>,
    vals: Vec<V<C, I>>,
    nin: usize,
    op: String,
    m: usize,
    first: Vec<[usize; 2]>,
    cls: Vec<Vec<usize>>,
    class_of: HashMap<Target<Sf<C>>, usize>,
    js: Value,
}

/// Which wires of a row, of the row to its right and of the row below its gate can look at.
fn looks<F: Field>(c: &[F]) -> (usize, usize, usize) {
    let p: Vec<bool> = c.iter().map(|x| *x == F::ONE).collect();
    match (p[0], p[1], p[2], p[3], p[4], p[5]) {
        (true, false, false, true, _, _) => (4, 0, 0),
        (true, false, true, true, false, _) => (1, 0, 0),
        (true, false, true, false, false, false) => (0, 0, 0),
        _ => (9, 4, 4),
    }
}

fn build<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(op: &str, sec: usize, ins: &[In], steps: &[Step<Sf<C>>], real: bool) -> Result<Built<C, I>, String> {
    catch(|| {
        let mut b = CircuitBuilder::<C>::new(sec);
        let mut vals: Vec<V<C, I>> = vec![];
        let mut maxs = vec![];
        for x in ins {
            let mut max = json!([]);
            vals.push(match x {
                In::Virt => V::F(b.add_virtual_target()),
                In::Pi => V::F(b.add_public_input()),
                In::Pt => V::Pt(b.add_virtual_point_target()),
                In::Int(m) => {
                    max = digits(m);
                    V::Int(b.add_virtual_bigint_target(m, true))
                }
            });
            maxs.push(max);
        }
        let nin = vals.len();
        let mut prog = vec![];
        for st in steps {
            let r = apply(&mut b, &vals, st);
            let par = if st.g.starts_with("foreign") { json!([digits(&order::<C::BaseField>())]) } else { par_js(&st.par) };
            prog.push(json!({"g": st.g, "a": st.a.iter().map(|k| k + 1).collect::<Vec<_>>(), "par": par}));
            vals.extend(r);
        }
        let circuit = b.build();
        let n = circuit.degree();
        let sigma = circuit.routing_target_partitions.to_wire_partitions().to_sigma();
        // classes: cycles of the permutation; wires which are not routed stand alone
        let mut raw = vec![0usize; 9 * n]; // by wire 9 * row + input
        let mut next = 0;
        let at = |j: usize| 9 * (j % n) + j / n;
        for j in 0..6 * n {
            if raw[at(j)] == 0 {
                next += 1;
                let mut k = j;
                while raw[at(k)] == 0 {
                    raw[at(k)] = next;
                    k = sigma[k];
                }
            }
        }
        for r in 0..n {
            for i in 6..9 {
                next += 1;
                raw[9 * r + i] = next;
            }
        }
        // which of them a constraint looks at
        let mut used = vec![false; next + 1];
        for r in 0..n {
            let (w, x, y) = looks(&circuit.gate_constants[r]);
            for (o, k) in [(0, w), (1, x), (65, y)].iter() {
                for i in 0..*k {
                    used[raw[9 * ((r + o) % n) + i]] = true;
                }
            }
        }
        // classes of targets
        let mut class_raw: HashMap<Target<Sf<C>>, usize> = HashMap::new();
        let mut loose: HashMap<Vec<usize>, usize> = HashMap::new();
        let all: Vec<Target<Sf<C>>> = vals.iter().flat_map(|v| v.targets()).collect();
        for &t in &all {
            let id = match t {
                Target::Wire(w) => raw[9 * w.gate + w.input],
                _ => {
                    let part = circuit.routing_target_partitions.get_partition(t);
                    let wires: Vec<usize> = part.iter().filter_map(|x| if let Target::Wire(w) = x { Some(9 * w.gate + w.input) } else { None }).collect();
                    let routed: Vec<usize> = wires.iter().cloned().filter(|w| w % 9 < 6).collect();
                    if let Some(&w) = routed.get(0) {
                        raw[w]
                    } else if wires.len() == 1 {
                        raw[wires[0]]
                    } else {
                        let mut key: Vec<usize> = part.iter().filter_map(|x| if let Target::VirtualTarget(v) = x { Some(v.index) } else { None }).collect();
                        key.sort();
                        *loose.entry(key).or_insert_with(|| { next += 1; next })
                    }
                }
            };
            used.resize(next + 1, false);
            used[id] = true;
            class_raw.insert(t, id);
        }
        let mut id = vec![0usize; next + 1];
        let mut m = 0;
        for k in 1..=next {
            if used[k] {
                m += 1;
                id[k] = m;
            }
        }
        let cls: Vec<Vec<usize>> = (0..n).map(|r| (0..9).map(|i| id[raw[9 * r + i]]).collect()).collect();
        let mut first = vec![[0, 0]; m];
        for r in (0..n).rev() {
            for i in (0..9).rev() {
                if cls[r][i] > 0 {
                    first[cls[r][i] - 1] = [r + 1, i + 1];
                }
            }
        }
        let class_of: HashMap<_, _> = class_raw.into_iter().map(|(t, k)| (t, id[k])).collect();
        let rescue = if steps.iter().any(|s| s.g == "hash" || s.g == "permutation") { rescue::<Sf<C>>(sec) } else { json!({}) };
        let p1 = order::<Sf<C>>() - 1u32;
        let js = json!({
            "F": {"big": true, "p": digits(&order::<Sf<C>>())},
            "S": {"big": true, "p": digits(&order::<C::BaseField>())},
            "zs": fb(I::ZETA_SCALAR),
            "G": {"A": fb(I::A), "B": fb(I::B), "zeta": fb(I::ZETA)},
            "R": rescue, "inv5": digits(&modinv(&BigUint::from(5u32), &p1)),
            "real": real, "n": n, "m": m, "cs": circuit.gate_constants.iter().map(|c| Value::Array(c.iter().map(|&x| fb(x)).collect())).collect::<Vec<_>>(),
            "cls": cls, "first": first, "prog": prog, "maxs": maxs,
            "types": vals.iter().map(|v| v.ty()).collect::<Vec<_>>(),
            "vals": vals.iter().map(|v| v.targets().iter().map(|t| class_of[t]).collect::<Vec<_>>()).collect::<Vec<_>>(),
        });
        Built { circuit, vals, nin, op: op.to_string(), m, first, cls, class_of, js }
    })
}

fn rescue<F: Field>(sec: usize) -> Value {
    let mut r = vh::prover::rescue_js::<F>(sec, 4);
    let deep = |v: &Value| digits(&big(from_js::<F>(v)));
    r["F"] = json!({"big": true, "p": digits(&order::<F>())});
    r["alpha"] = json!([5]);
    r["inv"] = digits(&modinv(&BigUint::from(5u32), &(order::<F>() - 1u32)));
    let ks: Vec<Value> = r["ks"].as_array().unwrap().iter().map(|ab| {
        Value::Array(ab.as_array().unwrap().iter().map(|k| Value::Array(k.as_array().unwrap().iter().map(|x| deep(x)).collect())).collect())
    }).collect();
    r["ks"] = json!(ks);
    r
}

impl<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>> Built<C, I> {
    /// One job: the inputs' values, values of further classes to assume, and the generated table.
    fn job(&self, c: usize, xs: &[Val<Sf<C>>], fix: &[(usize, Sf<C>)], honest: bool) -> Value {
        let js: Vec<Value> = xs.iter().zip(&self.vals).map(|(x, v)| match v {
            V::F(_) => fb(x[0]),
            _ => Value::Array(x.iter().map(|&y| fb(y)).collect()),
        }).collect();
        let fx: Vec<Value> = fix.iter().map(|&(k, v)| json!([k, fb(v)])).collect();
        let mut o = json!({"op": self.op, "c": c, "xs": js, "fix": fx, "honest": honest, "ok": false, "hv": [], "hx": []});
        if honest {
            match self.table(xs) {
                Ok((hv, hx)) => {
                    o["ok"] = json!(true);
                    o["hv"] = json!(hv);
                    o["hx"] = json!(hx);
                }
                Err(e) => o["panic"] = json!(e),
            }
        }
        o
    }
    fn partial(&self, xs: &[Val<Sf<C>>]) -> PartialWitness<Sf<C>> {
        let mut w = PartialWitness::new();
        for (x, v) in xs.iter().zip(&self.vals) {
            for (&y, &t) in x.iter().zip(&v.targets()) {
                w.set_target(t, y);
            }
        }
        w
    }
    /// The generated table, where a constraint looks at it, and the values of targets without wires.
    fn table(&self, xs: &[Val<Sf<C>>]) -> Result<(Vec<Vec<Value>>, Vec<Value>), String> {
        catch(|| {
            let w = self.circuit.generate_partial_witness(self.partial(xs));
            let mut hx = vec![json!([-2]); self.m];
            for (t, &k) in &self.class_of {
                if self.first[k - 1][0] == 0 && w.contains_target(*t) {
                    hx[k - 1] = fb(w.get_target(*t));
                }
            }
            let w = Witness::from_partial(&w, self.circuit.degree());
            let hv = (0..self.circuit.degree()).map(|r| (0..9).map(|i| if self.cls[r][i] == 0 { json!([]) } else { fb(w.get_indices(r, i)) }).collect()).collect();
            (hv, hx)
        })
    }
}

/// The circuits and jobs of one family.
struct Out2 {
    circuits: Vec<Value>,
    jobs: Vec<Value>,
}
impl Out2 {
    fn new() -> Self {
        Out2 { circuits: vec![], jobs: vec![] }
    }
    fn add<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(&mut self, op: &str, ins: &[In], steps: &[Step<Sf<C>>], real: bool, inputs: &[Vec<Val<Sf<C>>>]) -> Option<Built<C, I>> {
        self.add_sec(op, 128, ins, steps, real, inputs)
    }
    fn add_sec<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(&mut self, op: &str, sec: usize, ins: &[In], steps: &[Step<Sf<C>>], real: bool, inputs: &[Vec<Val<Sf<C>>>]) -> Option<Built<C, I>> {
        match build::<C, I>(op, sec, ins, steps, real) {
            Ok(b) => {
                self.circuits.push(b.js.clone());
                let c = self.circuits.len();
                for xs in inputs {
                    self.jobs.push(b.job(c, xs, &[], true));
                }
                Some(b)
            }
            Err(e) => {
                // every program here is one the builder must accept
                self.circuits.push(json!({"refused": true}));
                self.jobs.push(json!({"op": op, "c": self.circuits.len(), "refused": true, "why": e}));
                None
            }
        }
    }
    fn join(&mut self, mut o: Out2) {
        let k = self.circuits.len();
        self.circuits.append(&mut o.circuits);
        for mut j in o.jobs {
            j["c"] = json!(j["c"].as_u64().unwrap() as usize + k);
            self.jobs.push(j);
        }
    }
    fn write(self, dir: &str) {
        let mut h = Out::new(&format!("{}/hdr.ndjson", dir));
        for c in self.circuits {
            h.rec(c);
        }
        let mut t = Out::new(&format!("{}/trace.ndjson", dir));
        for j in self.jobs {
            t.rec(j);
        }
    }
}

fn cheap<F: Field>(n: u64) -> F {
    F::from_canonical_u64(n)
}

/// Element with emphasis on small and extreme ones.
fn elem<F: Field>(rng: &mut Rngs) -> F {
    match rng.gen_range(0, 9) {
        0 => F::ZERO,
        1 => F::ONE,
        2 => F::NEG_ONE,
        3 => F::TWO,
        4 => cheap(rng.gen_range(0, 9)),
        _ => F::rand_from_rng(rng),
    }
}

const UNARY: &[&str] = &["neg", "double", "square", "inv", "not", "is_zero", "is_nonzero", "assert_zero", "assert_one", "assert_binary", "assert_nonzero", "assert_all_base_4"];
const BINARY: &[&str] = &["add", "sub", "mul", "div", "is_equal", "is_not_equal", "copy"];
const TERNARY: &[&str] = &["mul_add", "mul_sub", "select", "conditional_copy", "ordering_assert_valid"];

/// A gadget with operands declared in different ways: 0 virtual, 1 public input, 2 the previous operand
/// again, 3.. constants.
fn operands<F: Field>(kinds: &[usize], rng: &mut Rngs) -> (Vec<In>, Vec<Step<F>>, Vec<usize>) {
    let mut ins = vec![];
    let mut consts = vec![];
    let nin = kinds.iter().filter(|k| **k < 2).count();
    let mut a: Vec<usize> = vec![];
    for &k in kinds {
        match k {
            0 => { ins.push(In::Virt); a.push(ins.len() - 1); }
            1 => { ins.push(In::Pi); a.push(ins.len() - 1); }
            2 if !a.is_empty() => { let l = *a.last().unwrap(); a.push(l); }
            k => {
                let c = match k { 3 => F::ZERO, 4 => F::ONE, 5 => F::NEG_ONE, 6 => F::TWO, _ => F::rand_from_rng(rng) };
                consts.push(sp("const", &[], Par::F(c)));
                a.push(nin + consts.len() - 1);
            }
        }
    }
    (ins, consts, a)
}

fn inputs<F: Field>(g: &str, n: usize, count: usize, rng: &mut Rngs) -> Vec<Vec<Val<F>>> {
    let p = order::<F>();
    if n == 0 {
        return vec![vec![]];
    }
    if n == 1 && p <= BigUint::from(257u32) && count > 256 {
        return (0..257).map(|x| vec![vec![cheap(x)]]).collect();
    }
    (0..count).map(|k| {
        let mut v: Vec<Val<F>> = (0..n).map(|_| vec![elem(rng)]).collect();
        if n > 1 && k % 3 == 1 {
            let i = rng.gen_range(0, n);
            v[i] = v[(i + 1) % n].clone();
        }
        if (g == "select" || g == "not" || g == "conditional_copy") && k % 4 > 0 {
            v[0] = vec![if rng.gen() { F::ONE } else { F::ZERO }];
        }
        if (g == "ordering_assert_valid" || g == "assert_all_base_4") && k % 5 > 0 {
            for x in v.iter_mut() {
                *x = vec![cheap(rng.gen_range(0, if g.starts_with('o') { 2 } else { 4 }))];
            }
            if k % 5 == 1 {
                let i = rng.gen_range(0, n);
                v[i] = vec![*[F::NEG_ONE, F::TWO, cheap(4), cheap(5), F::rand_from_rng(rng)].get(rng.gen_range(0, 5)).unwrap()];
            }
        }
        v
    }).collect()
}

/// Every gadget over elements, once per way of declaring its operands.
fn single<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(full: bool, count: usize, rng: &mut Rngs) -> Out2 {
    let mut o = Out2::new();
    let real = is_big::<Sf<C>>();
    let mut run = |g: &'static str, kinds: &[usize], par: Par<Sf<C>>, count: usize, rng: &mut Rngs| {
        let (ins, mut steps, a) = operands(kinds, rng);
        let inp = inputs(g, ins.len(), count, rng);
        steps.push(sp(g, &a, par));
        o.add::<C, I>(g, &ins, &steps, real, &inp);
    };
    let all = if full { 257 } else { count };
    for g in UNARY {
        run(g, &[0], Par::No, all, rng);
        run(g, &[1], Par::No, count, rng);
        for k in 3..8 {
            if full || k == 3 {
                run(g, &[k], Par::No, 1, rng);
            }
        }
    }
    let pick: &[[usize; 2]] = if full { &[[0, 0], [0, 2], [0, 1], [1, 0], [1, 2], [0, 3], [3, 0], [0, 4], [4, 0], [5, 0], [0, 7], [7, 0], [3, 3], [4, 4], [6, 7]] } else { &[[0, 0], [0, 2], [1, 0], [0, 7], [4, 0]] };
    for g in BINARY {
        for k in pick {
            run(g, k, Par::No, count, rng);
        }
    }
    let pick: &[[usize; 3]] = if full { &[[0, 0, 0], [0, 2, 2], [0, 0, 2], [0, 2, 0], [1, 0, 1], [0, 3, 0], [0, 4, 0], [3, 0, 0], [4, 0, 0], [0, 0, 3], [0, 0, 4], [7, 0, 7], [6, 7, 5]] } else { &[[0, 0, 0], [0, 2, 2], [7, 0, 1]] };
    for g in TERNARY {
        for k in pick {
            run(g, k, Par::No, count, rng);
        }
    }
    for n in 0..if full { 6 } else { 4 } {
        for g in &["add_many", "mul_many"] {
            let kinds: Vec<usize> = (0..n).map(|i| match (i + n) % 5 { 3 => 4, 4 => 2, k => k % 2 }).collect();
            run(g, &kinds, Par::No, count, rng);
        }
    }
    for &n in if full { &[2usize, 5, 6, 7, 8, 13][..] } else { &[2, 7][..] } {
        run("assert_all_base_4", &vec![0; n], Par::No, 2 * count, rng);
    }
    run("assert_all_base_4", &[0, 2], Par::No, count, rng);
    let p1 = order::<Sf<C>>() - 1u32;
    let powers: Vec<BigUint> = vec![0u32, 1, 2, 3, 4, 5, 6, 7, 8, 16, 21, 255].into_iter().map(BigUint::from).collect();
    for e in &powers {
        run("exp", &[0], Par::Int(e.clone()), if e < &BigUint::from(4u32) { all } else { count }, rng);
        if e < &BigUint::from(5u32) {
            run("exp", &[7], Par::Int(e.clone()), 1, rng);
        }
    }
    if full {
        for e in &[p1.clone(), &p1 / 2u32, BigUint::from(100u32)] {
            run("exp", &[0], Par::F(from_big::<Sf<C>>(e)), count, rng);
        }
    }
    for ord in &[Ordering::Less, Ordering::Equal, Ordering::Greater] {
        run("constant_ordering", &[], Par::Ord(*ord), 1, rng);
    }
    o
}

/// Random programs: later steps use earlier values, constants included.
fn program<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(len: usize, count: usize, rng: &mut Rngs) -> Out2 {
    let mut o = Out2::new();
    let nin = rng.gen_range(1, 4);
    let npi = rng.gen_range(0, 2) * rng.gen_range(0, 12);
    let mut ins: Vec<In> = (0..nin).map(|_| In::Virt).collect();
    for _ in 0..npi {
        let at = rng.gen_range(0, ins.len() + 1);
        ins.insert(at, In::Pi);
    }
    let mut nv = ins.len();
    let mut bits: Vec<usize> = vec![];
    let mut steps: Vec<Step<Sf<C>>> = vec![];
    for _ in 0..len {
        let x = |rng: &mut Rngs| if rng.gen_range(0, 3) == 0 { nv - 1 } else { rng.gen_range(0, nv) };
        let bit = |rng: &mut Rngs, bits: &[usize]| if bits.is_empty() { None } else { Some(bits[rng.gen_range(0, bits.len())]) };
        let mut isbit = false;
        let st = match rng.gen_range(0, 22) {
            0 | 1 => sp("const", &[], Par::F(match rng.gen_range(0, 5) { 0 => Sf::<C>::ZERO, 1 => Sf::<C>::ONE, 2 => Sf::<C>::NEG_ONE, _ => cheap(rng.gen_range(0, 7)) })),
            2 => s("add", &[x(rng), x(rng)]),
            3 => s("sub", &[x(rng), x(rng)]),
            4 => s("mul", &[x(rng), x(rng)]),
            5 => s("mul_add", &[x(rng), x(rng), x(rng)]),
            6 => s("mul_sub", &[x(rng), x(rng), x(rng)]),
            7 => s("square", &[x(rng)]),
            8 => s("double", &[x(rng)]),
            9 => s("neg", &[x(rng)]),
            10 => s("div", &[x(rng), x(rng)]),
            11 => s("inv", &[x(rng)]),
            12 => sp("exp", &[x(rng)], Par::Int(BigUint::from(rng.gen_range(0, 6u32)))),
            13 => { let k = rng.gen_range(1, 4); s("add_many", &(0..k).map(|_| x(rng)).collect::<Vec<_>>()) }
            14 => { let k = rng.gen_range(1, 4); s("mul_many", &(0..k).map(|_| x(rng)).collect::<Vec<_>>()) }
            15 => { isbit = true; s("is_zero", &[x(rng)]) }
            16 => { isbit = true; s("is_nonzero", &[x(rng)]) }
            17 => { isbit = true; s("is_equal", &[x(rng), x(rng)]) }
            18 => { isbit = true; s("is_not_equal", &[x(rng), x(rng)]) }
            19 => match bit(rng, &bits) { Some(b) => s("select", &[b, x(rng), x(rng)]), None => continue },
            20 => match bit(rng, &bits) { Some(b) => { isbit = true; s("not", &[b]) } None => continue },
            _ => match bit(rng, &bits) {
                Some(b) => match rng.gen_range(0, 4) {
                    0 => { let z = nv; steps.push(sp("const", &[], Par::F(Sf::<C>::ZERO))); nv += 1; s("conditional_copy", &[b, z, z]) }
                    1 => s("assert_binary", &[b]),
                    2 => s("copy", &[b, b]),
                    _ => s("assert_all_base_4", &[b, b, b]),
                },
                None => continue,
            },
        };
        let none = ["conditional_copy", "assert_binary", "copy", "assert_all_base_4"].contains(&st.g);
        steps.push(st);
        if !none {
            if isbit {
                bits.push(nv);
            }
            nv += 1;
        }
    }
    let inp: Vec<Vec<Val<Sf<C>>>> = (0..count).map(|_| ins.iter().map(|_| vec![elem(rng)]).collect()).collect();
    o.add::<C, I>("program", &ins, &steps, is_big::<Sf<C>>(), &inp);
    o
}

fn hashes<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(sec: usize, count: usize, rng: &mut Rngs) -> Out2 {
    let mut o = Out2::new();
    for (n, k) in [(1, 1), (3, 2), (2, 3)].iter() {
        let (ins, mut steps, a) = operands(&vec![0; *n], rng);
        steps.push(sp("hash", &a, Par::N(*k)));
        let inp = inputs("hash", *n, count, rng);
        o.add_sec::<C, I>("hash", sec, &ins, &steps, true, &inp);
    }
    let (ins, mut steps, a) = operands(&[0, 0, 2, 0], rng);
    steps.push(s("permutation", &a));
    let inp = inputs("permutation", 3, count, rng);
    o.add_sec::<C, I>("permutation", sec, &ins, &steps, true, &inp);
    o
}

fn sqrts<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(count: usize, rng: &mut Rngs) -> Out2 {
    let mut o = Out2::new();
    let mut inp: Vec<Vec<Val<Sf<C>>>> = vec![];
    for k in 0..count {
        let x = match k { 0 => Sf::<C>::ZERO, 1 => Sf::<C>::ONE, 2 => Sf::<C>::FOUR, _ => Sf::<C>::rand_from_rng(rng) };
        inp.push(vec![vec![if k == 3 || k == 7 { Sf::<C>::MULTIPLICATIVE_SUBGROUP_GENERATOR * x * x } else { x * x }]]);
    }
    o.add::<C, I>("sqrt", &[In::Virt], &[s("sqrt", &[0])], true, &inp);
    o
}

fn c11(dir: &str, seed: u64, thorough: bool) {
    let t = if thorough { 4 } else { 1 };
    let mut work: Vec<Box<dyn Fn(&mut Rngs) -> Out2 + Sync + Send>> = vec![];
    work.push(Box::new(move |r| single::<G257, I257>(true, 12 * t, r)));
    work.push(Box::new(move |r| single::<G12289, I12289>(false, 4 * t, r)));
    work.push(Box::new(move |r| single::<Tweedledee, Tweedledum>(false, 2 * t, r)));
    if thorough {
        work.push(Box::new(move |r| single::<Tweedledum, Tweedledee>(true, 6, r)));
        work.push(Box::new(move |r| single::<Pallas, Vesta>(false, 6, r)));
        work.push(Box::new(move |r| single::<Vesta, Pallas>(false, 6, r)));
    }
    for _ in 0..60 * t {
        work.push(Box::new(move |r| program::<G257, I257>(6, 10, r)));
    }
    for k in 0..20 * t {
        work.push(Box::new(move |r| program::<G12289, I12289>(10 + k % 60, 4, r)));
    }
    for _ in 0..3 * t {
        work.push(Box::new(move |r| program::<Tweedledum, Tweedledee>(12, 3, r)));
        work.push(Box::new(move |r| program::<Vesta, Pallas>(12, 3, r)));
    }
    work.push(Box::new(move |r| hashes::<G257, I257>(0, 6 * t, r)));
    work.push(Box::new(move |r| hashes::<G12289, I12289>(128, 3 * t, r)));
    work.push(Box::new(move |r| hashes::<Pallas, Vesta>(128, 2 * t, r)));
    work.push(Box::new(move |r| sqrts::<Tweedledee, Tweedledum>(6 * t, r)));
    work.push(Box::new(move |r| sqrts::<Tweedledum, Tweedledee>(4 * t, r)));
    if thorough {
        work.push(Box::new(move |r| sqrts::<Pallas, Vesta>(16, r)));
        work.push(Box::new(move |r| sqrts::<Vesta, Pallas>(16, r)));
    }
    finish(dir, seed, work);
}

/// A number below 2^bits, with emphasis on extreme ones and on long runs of equal bits.
fn number(max: &BigUint, rng: &mut Rngs) -> BigUint {
    let one = BigUint::one();
    let r = |rng: &mut Rngs| {
        let b: Vec<u8> = (0..max.bits() / 8 + 9).map(|_| rng.gen()).collect();
        BigUint::from_bytes_le(&b) % (max + 1u32)
    };
    match rng.gen_range(0, 10) {
        0 => max.clone(),
        1 => BigUint::from(0u32),
        2 => one.min(max.clone()),
        3 => if *max > one { max - 1u32 } else { one.min(max.clone()) },
        4 => pow2(86).min(max.clone()),
        5 => (pow2(86) - 1u32).min(max.clone()),
        6 => max ^ (r(rng) >> (max.bits() as usize / 2)),
        7 => pow2(rng.gen_range(0, max.bits() as usize + 1)).min(max.clone()),
        _ => r(rng),
    }.min(max.clone())
}

fn limbs<F: Field>(x: &BigUint, max: &BigUint) -> Val<F> {
    let n = (max.bits() as usize + 85) / 86;
    (0..n).map(|i| from_big::<F>(&((x >> (86 * i)) % pow2(86)))).collect()
}

fn pow2(k: usize) -> BigUint {
    BigUint::one() << k
}

/// A program over numbers: honest runs, limbs out of range, and, where the program divides, wrong quotients
/// and remainders.
fn ints<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(op: &str, maxs: &[BigUint], steps: &[Step<Sf<C>>], count: usize, bad: bool, rng: &mut Rngs) -> Out2 {
    let mut o = Out2::new();
    let ins: Vec<In> = maxs.iter().map(|m| In::Int(m.clone())).collect();
    let b = match o.add::<C, I>(op, &ins, steps, true, &[]) {
        Some(b) => b,
        None => return o,
    };
    // the steps which divide: operands, and the values holding quotient and remainder, if visible
    let mut nv = ins.len();
    let mut divs = vec![];
    for s in steps {
        match s.g {
            "bigint_div_rem" => { divs.push((s.a[0], s.a[1], Some(nv), Some(nv + 1))); nv += 2; }
            "assert_one" | "copy_bigint" => {}
            _ => nv += 1,
        }
    }
    let hidden = steps.iter().any(|s| ["bigint_div", "bigint_rem", "foreign_add", "foreign_mul"].contains(&s.g));
    for k in 0..count {
        let mut ns: Vec<BigUint> = maxs.iter().map(|m| number(m, rng)).collect();
        if ns.len() > 1 && k % 4 == 1 {
            ns[1] = ns[0].clone().min(maxs[1].clone());
        }
        if ns.len() > 1 && op.contains("div") && k % 5 != 4 && ns[1] == BigUint::from(0u32) {
            ns[1] = number(&(&maxs[1] >> (maxs[1].bits() as usize / 3)), rng).max(BigUint::one()).min(maxs[1].clone());
        }
        let xs: Vec<Val<Sf<C>>> = ns.iter().zip(maxs).map(|(n, m)| limbs(n, m)).collect();
        let fix_of = |v: usize, n: &BigUint, max: &BigUint| -> Vec<(usize, Sf<C>)> {
            let ls: Val<Sf<C>> = limbs(n, max);
            b.vals[v].targets().iter().zip(ls).map(|(t, l)| (b.class_of[t], l)).collect()
        };
        if let Some(&(x, y, Some(q), Some(r))) = divs.get(0) {
            let of = |v: usize| match &b.vals[v] { V::Int(t) => t.max.clone(), _ => unreachable!() };
            let (qm, rm) = (of(q), of(r));
            let (xv, yv) = (ns[x].clone(), if y < ns.len() { ns[y].clone() } else { of(y) });
            if yv == BigUint::from(0u32) {
                o.jobs.push(b.job(1, &xs, &[], true).tap(|j| j["noleaf"] = json!(true)));
                continue;
            }
            let (qv, rv) = (&xv / &yv, &xv % &yv);
            let both = |q2: &BigUint, r2: &BigUint| -> Vec<(usize, Sf<C>)> {
                let mut f = fix_of(q, q2, &qm);
                f.extend(fix_of(r, r2, &rm));
                f
            };
            o.jobs.push(b.job(1, &xs, &both(&qv, &rv), true));
            let zero = BigUint::from(0u32);
            let mut wrong = vec![(&qv + 1u32, rv.clone()), (qv.clone(), &rv + 1u32), (zero.clone(), zero.clone())];
            for m in &[BigUint::one(), BigUint::from(2u32), qv.clone()] {
                if *m > zero && *m <= qv && &rv + m * &yv <= pow2(rm.bits() as usize) {
                    wrong.push((&qv - m, &rv + m * &yv));
                }
            }
            for w in wrong {
                if w.0 <= qm && w.0.bits() <= qm.bits() && w.1.bits() <= rm.bits() && w != (qv.clone(), rv.clone()) {
                    o.jobs.push(b.job(1, &xs, &both(&w.0, &w.1), false));
                }
            }
            // limbs which satisfy the lowest equation modulo the field, but are not numbers of this size
            let mut f = both(&qv, &rv);
            if f.len() > 1 {
                let l = f.len() - 1;
                f[l].1 = f[l].1 + Sf::<C>::ONE;
                f[0].1 = f[0].1 - Sf::<C>::ONE;
                o.jobs.push(b.job(1, &xs, &f, false));
            }
        } else {
            o.jobs.push(b.job(1, &xs, &[], true).tap(|j| if hidden { j["noleaf"] = json!(true) }));
        }
    }
    if bad {
        // a limb out of its range
        for v in 0..ins.len() {
            let n = b.vals[v].targets().len();
            for l in 0..n {
                let mut xs: Vec<Val<Sf<C>>> = maxs.iter().map(|m| limbs(&number(m, rng), m)).collect();
                let bits = 86.min(maxs[v].bits() as usize - 86 * l);
                let top = pow2(2 * ((bits + 1) / 2));
                xs[v][l] = match rng.gen_range(0, 3) { 0 => from_big(&top), 1 => Sf::<C>::NEG_ONE, _ => from_big::<Sf<C>>(&(top * 4u32 + 1u32)) };
                o.jobs.push(b.job(1, &xs, &[], true).tap(|j| if hidden || !divs.is_empty() { j["noleaf"] = json!(true) }));
            }
        }
    }
    o
}

trait Tap: Sized {
    fn tap(mut self, f: impl FnOnce(&mut Self)) -> Self {
        f(&mut self);
        self
    }
}
impl Tap for Value {}

fn c20(dir: &str, seed: u64, thorough: bool) {
    let mut work: Vec<Box<dyn Fn(&mut Rngs) -> Out2 + Sync + Send>> = vec![];
    let p = order::<<Tweedledee as Curve>::BaseField>();
    let sizes = vec![BigUint::from(1u32), BigUint::from(5u32), pow2(64) - 1u32, pow2(86) - 1u32, pow2(86), pow2(87) - 1u32, pow2(100), pow2(172) - 1u32, &p - 1u32, pow2(255), pow2(300)];
    fn go<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(work: &mut Vec<Box<dyn Fn(&mut Rngs) -> Out2 + Sync + Send>>, op: &'static str, maxs: Vec<BigUint>, steps: Vec<Step<Sf<C>>>, count: usize, bad: bool) {
        work.push(Box::new(move |r| ints::<C, I>(op, &maxs, &steps, count, bad, r)));
    }
    fn all<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(work: &mut Vec<Box<dyn Fn(&mut Rngs) -> Out2 + Sync + Send>>, z: &[BigUint], pairs: &[(usize, usize)], t: usize) {
        for (k, &(i, j)) in pairs.iter().enumerate() {
            let m = vec![z[i].clone(), z[j].clone()];
            go::<C, I>(work, "bigint_add", m.clone(), vec![s("bigint_add", &[0, 1])], 3 * t, k == 0);
            go::<C, I>(work, "bigint_cmp", m.clone(), vec![s("bigint_cmp", &[0, 1])], 5 * t, k == 1);
            go::<C, I>(work, "copy_bigint", m.clone(), vec![s("copy_bigint", &[0, 1])], 4 * t, false);
            go::<C, I>(work, "bigint_mul", m.clone(), vec![s("bigint_mul", &[0, 1])], 3 * t, false);
            if pairs.len() > 10 || z[i].bits() < 250 || k == 3 {
                go::<C, I>(work, "bigint_div_rem", m.clone(), vec![s("bigint_div_rem", &[0, 1])], 2 * t, k == 1);
            }
        }
    }
    fn rest<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(work: &mut Vec<Box<dyn Fn(&mut Rngs) -> Out2 + Sync + Send>>, z: &[BigUint], t: usize, thorough: bool) {
        let p = order::<C::BaseField>();
        let c = |n: BigUint| sp("constant_bigint", &[], Par::Int(n));
        let zero = BigUint::from(0u32);
        go::<C, I>(work, "bigint_add", vec![z[3].clone(); 3], vec![s("bigint_add", &[0, 1, 2])], 3 * t, false);
        go::<C, I>(work, "bigint_add", vec![z[7].clone(), z[2].clone()], vec![s("bigint_add", &[0, 1, 0, 1, 0])], 3 * t, false);
        go::<C, I>(work, "bigint_add", vec![z[7].clone()], vec![c(zero.clone()), s("bigint_add", &[0, 1]), s("bigint_add", &[2, 2])], 3 * t, false);
        go::<C, I>(work, "bigint_mul", vec![z[7].clone()], vec![c(zero.clone()), s("bigint_mul", &[0, 1]), s("bigint_mul", &[1, 0])], t, false);
        go::<C, I>(work, "bigint_mul", vec![z[2].clone()], vec![s("bigint_mul", &[0, 0]), s("bigint_mul", &[1, 0]), s("bigint_add", &[2, 0])], 2 * t, false);
        go::<C, I>(work, "bigint_cmp", vec![z[7].clone()], vec![c(pow2(86)), s("bigint_cmp", &[0, 1]), s("bigint_cmp", &[1, 0]), s("bigint_cmp", &[0, 0])], 4 * t, false);
        go::<C, I>(work, "bigint_cmp", vec![z[8].clone()], vec![c(zero.clone()), s("bigint_cmp", &[0, 1]), s("bigint_cmp", &[1, 0]), s("bigint_cmp", &[1, 1])], 3 * t, false);
        go::<C, I>(work, "copy_bigint", vec![z[7].clone()], vec![c(pow2(100) + 5u32), s("copy_bigint", &[0, 1]), s("copy_bigint", &[1, 0])], 2 * t, false);
        go::<C, I>(work, "constant_bigint", vec![], vec![c(zero.clone()), c(pow2(86)), c(pow2(86) - 1u32), c(p.clone()), c(pow2(200) + pow2(86))], 1, false);
        go::<C, I>(work, "bigint_div", vec![z[6].clone(), z[2].clone()], vec![s("bigint_div", &[0, 1])], 3 * t, false);
        go::<C, I>(work, "bigint_rem", vec![z[6].clone(), z[2].clone()], vec![s("bigint_rem", &[0, 1])], 3 * t, false);
        go::<C, I>(work, "bigint_div_rem", vec![z[6].clone()], vec![c(BigUint::from(7u32)), s("bigint_div_rem", &[0, 1])], 2 * t, false);
        go::<C, I>(work, "bigint_div_rem", vec![z[3].clone()], vec![c(BigUint::from(1u32)), s("bigint_div_rem", &[0, 1])], t, false);
        go::<C, I>(work, "foreign_add", vec![&p - 1u32, &p - 1u32], vec![s("foreign_add", &[0, 1])], 4 * t, true);
        go::<C, I>(work, "foreign_add", vec![&p - 1u32, &p - 1u32, &p - 1u32], vec![s("foreign_add", &[0, 1, 2])], 3 * t, false);
        go::<C, I>(work, "foreign_add", vec![&p - 1u32], vec![s("foreign_add", &[0])], 2 * t, false);
        go::<C, I>(work, "foreign_mul", vec![&p - 1u32, &p - 1u32], vec![s("foreign_mul", &[0, 1])], 4 * t, false);
        go::<C, I>(work, "foreign_mul", vec![&p - 1u32], vec![c(zero.clone()), c(BigUint::one()), s("foreign_mul", &[0, 1]), s("foreign_mul", &[0, 2])], t, false);
        go::<C, I>(work, "foreign_mul", vec![&p - 1u32], vec![s("foreign_mul", &[0, 0]), s("foreign_add", &[1, 0])], t, false);
        if thorough {
            go::<C, I>(work, "bigint_div_rem", vec![pow2(86), pow2(255)], vec![s("bigint_div_rem", &[1, 0])], 2 * t, false);
            go::<C, I>(work, "foreign_div", vec![&p * &p], vec![c(p.clone()), s("bigint_div_rem", &[0, 1])], t, false);
        }
    }
    if thorough {
        let every: Vec<(usize, usize)> = (0..sizes.len()).flat_map(|i| (0..sizes.len()).map(move |j| (i, j))).collect();
        all::<Tweedledee, Tweedledum>(&mut work, &sizes, &every, 1);
        all::<Pallas, Vesta>(&mut work, &sizes, &[(3, 3), (7, 2), (8, 8)], 2);
        rest::<Tweedledee, Tweedledum>(&mut work, &sizes, 4, thorough);
        rest::<Tweedledum, Tweedledee>(&mut work, &sizes, 3, thorough);
        rest::<Pallas, Vesta>(&mut work, &sizes, 3, thorough);
        rest::<Vesta, Pallas>(&mut work, &sizes, 3, thorough);
    } else {
        all::<Tweedledee, Tweedledum>(&mut work, &sizes, &[(3, 3), (7, 2), (1, 8), (8, 7), (5, 4)], 1);
        all::<Vesta, Pallas>(&mut work, &sizes, &[(6, 5)], 1);
        rest::<Tweedledum, Tweedledee>(&mut work, &sizes, 1, thorough);
    }
    finish(dir, seed, work);
}

fn coords<F: Field, I: Curve<BaseField = F>>(p: AffinePoint<I>) -> Val<F> {
    vec![p.x, p.y]
}
fn finite<I: Curve>(ps: Vec<AffinePoint<I>>) -> Vec<AffinePoint<I>> {
    ps.into_iter().filter(|p| !p.zero).collect()
}
fn points<I: Curve>(n: usize, rng: &mut Rngs) -> Vec<AffinePoint<I>> {
    if is_big::<I::BaseField>() {
        let g = I::GENERATOR_AFFINE;
        let mut v = vec![g, aneg(g), aadd(g, g)];
        while v.len() < n {
            v.push(amul(&big(I::ScalarField::rand_from_rng(rng)), g));
        }
        v.truncate(n);
        v
    } else {
        let p = order::<I::BaseField>().to_u64_digits()[0];
        (0..n).map(|_| loop {
            // a point with a random abscissa: the curves are small
            let x: I::BaseField = cheap(rng.gen_range(0, p));
            let ys: Vec<u64> = (0..p).filter(|&y| { let y: I::BaseField = cheap(y); y * y == x * x * x + I::A * x + I::B }).collect();
            if !ys.is_empty() {
                break AffinePoint { x, y: cheap(ys[rng.gen_range(0, ys.len())]), zero: false };
            }
        }).collect()
    }
}

/// Gadgets on points: every point, or pairs of points in special and arbitrary position.
fn curves<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(count: usize, rng: &mut Rngs) -> Out2 {
    let mut o = Out2::new();
    let real = is_big::<Sf<C>>();
    let every = if real || order::<Sf<C>>() > BigUint::from(257u32) { points::<I>(count, rng) } else { finite(all_points::<I>()) };
    let pick = |rng: &mut Rngs| points::<I>(4, rng)[rng.gen_range(0, 4)];
    let one: Vec<Vec<Val<Sf<C>>>> = every.iter().map(|p| vec![coords(*p)]).chain((0..count).map(|_| vec![vec![elem(rng), elem(rng)]])).collect();
    let mut two: Vec<Vec<Val<Sf<C>>>> = vec![];
    for k in 0..count {
        let p = if k < 3 { every[k % every.len()] } else { pick(rng) };
        let q = match k % 6 {
            0 => p,
            1 => aneg(p),
            2 => { let d = aadd(p, p); if d.zero { p } else { d } }
            3 => { let d = aneg(aadd(p, p)); if d.zero { p } else { d } }
            _ => pick(rng),
        };
        two.push(vec![coords(p), coords(q)]);
        two.push(vec![coords(p), vec![elem(rng), elem(rng)]]);
    }
    let asserted: Vec<Vec<Val<Sf<C>>>> = one.iter().cloned().chain((0..count).flat_map(|_| {
        let p = pick(rng);
        let e: Sf<C> = elem(rng);
        vec![vec![vec![p.x, p.y + e]], vec![vec![p.x + e, p.y]], vec![vec![p.y, p.x]]]
    })).collect();
    let mut chosen: Vec<Vec<Val<Sf<C>>>> = vec![];
    if !real {
        // every element as an abscissa
        for x in 0..(if order::<Sf<C>>() > BigUint::from(257u32) { 0 } else { 257 }) {
            chosen.push(vec![vec![cheap(x), elem(rng)]]);
        }
    }
    let asserted: Vec<_> = asserted.into_iter().chain(chosen).collect();
    o.add::<C, I>("curve_assert_valid", &[In::Pt], &[s("curve_assert_valid", &[0])], real, &asserted);
    o.add::<C, I>("curve_neg", &[In::Pt], &[s("curve_neg", &[0])], real, &one);
    o.add::<C, I>("curve_double", &[In::Pt], &[s("curve_double", &[0])], real, &one);
    o.add::<C, I>("curve_double", &[In::Pt], &[s("curve_double", &[0]), s("curve_double", &[1]), s("curve_add", &[1, 0])], real, &one);
    o.add::<C, I>("curve_add", &[In::Pt, In::Pt], &[s("curve_add", &[0, 1])], real, &two);
    o.add::<C, I>("curve_sub", &[In::Pt, In::Pt], &[s("curve_sub", &[0, 1])], real, &two);
    o.add::<C, I>("copy_curve", &[In::Pt, In::Pt], &[s("copy_curve", &[0, 1])], real, &two);
    o.add::<C, I>("curve_add", &[In::Pt, In::Pt], &[s("curve_add", &[0, 1]), s("curve_sub", &[2, 1]), s("copy_curve", &[3, 0])], real, &two);
    o.add::<C, I>("curve_add", &[In::Pt], &[s("curve_add", &[0, 0])], real, &one[..one.len().min(6)]);
    for k in 0..3 {
        let c = pick(rng);
        let cp = || sp("constant_point", &[], Par::Pt(c.x, c.y));
        let inp: Vec<_> = one.iter().cloned().chain(vec![vec![coords(c)], vec![coords(aneg(c))]]).take(20).collect();
        match k {
            0 => o.add::<C, I>("curve_add", &[In::Pt], &[cp(), s("curve_add", &[1, 0])], real, &inp),
            1 => o.add::<C, I>("curve_sub", &[In::Pt], &[cp(), s("curve_sub", &[1, 0]), s("curve_double", &[1])], real, &inp),
            _ => o.add::<C, I>("curve_assert_valid", &[In::Pt], &[cp(), s("curve_assert_valid", &[1]), s("copy_curve", &[0, 1])], real, &inp),
        };
    }
    o
}

/// Random programs on points.
fn curve_program<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(len: usize, count: usize, rng: &mut Rngs) -> Out2 {
    let mut o = Out2::new();
    let nin = rng.gen_range(1, 4);
    let mut nv = nin;
    let mut steps = vec![];
    for _ in 0..len {
        let x = |rng: &mut Rngs| if rng.gen_range(0, 2) == 0 { nv - 1 } else { rng.gen_range(0, nv) };
        let st = match rng.gen_range(0, 8) {
            0 => { let c = points::<I>(6, rng)[rng.gen_range(0, 6)]; sp("constant_point", &[], Par::Pt(c.x, c.y)) }
            1 => s("curve_neg", &[x(rng)]),
            2 | 3 => s("curve_double", &[x(rng)]),
            4 => { steps.push(s("curve_assert_valid", &[x(rng)])); continue }
            5 => s("curve_sub", &[x(rng), x(rng)]),
            _ => s("curve_add", &[x(rng), x(rng)]),
        };
        steps.push(st);
        nv += 1;
    }
    let inp: Vec<Vec<Val<Sf<C>>>> = (0..count).map(|_| points::<I>(nin, rng).into_iter().map(coords).collect()).collect();
    o.add::<C, I>("curve_program", &vec![In::Pt; nin], &steps, is_big::<Sf<C>>(), &inp);
    o
}

/// Sums of products.
fn msms<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(parts: usize, count: usize, rng: &mut Rngs) -> Out2 {
    let mut o = Out2::new();
    let real = is_big::<Sf<C>>();
    let p = order::<Sf<C>>();
    let mut ins = vec![];
    let mut a = vec![];
    for k in 0..parts {
        ins.push(In::Virt);
        ins.push(In::Pt);
        a.extend(vec![2 * k, 2 * k + 1]);
    }
    let top = pow2(p.bits() as usize - 1);
    let mut inp = vec![];
    for k in 0..count {
        let mut xs: Vec<Val<Sf<C>>> = vec![];
        for (j, q) in points::<I>(parts, rng).into_iter().enumerate() {
            let n = match (k + 3 * j) % 9 {
                0 => &top - 1u32,
                1 => BigUint::from(0u32),
                2 => BigUint::one(),
                3 => &p - 1u32,
                4 => top.clone() % &p,
                5 => number(&(&top >> 1), rng),
                _ => number(&(&top - 1u32), rng),
            };
            xs.push(vec![from_big::<Sf<C>>(&n)]);
            xs.push(coords(q));
        }
        if parts > 1 && k % 4 == 2 {
            xs[3] = xs[1].clone();
        }
        inp.push(xs);
    }
    o.add::<C, I>("curve_msm", &ins, &[sp("curve_msm", &a, Par::N(parts))], real, &inp);
    if !real && p > BigUint::from(257u32) {
        // the same scalar or point twice, constants
        let c = points::<I>(1, rng)[0];
        let one: Vec<_> = inp.iter().map(|x| x[..2].to_vec()).collect();
        o.add::<C, I>("curve_msm", &ins[..2], &[sp("constant_point", &[], Par::Pt(c.x, c.y)), sp("curve_msm", &[0, 2], Par::N(1)), s("curve_assert_valid", &[3])], real, &one);
        if parts > 1 {
            o.add::<C, I>("curve_msm", &ins[..2], &[sp("constant_point", &[], Par::Pt(c.x, c.y)), sp("curve_msm", &[0, 1, 0, 2], Par::N(2))], real, &one);
        }
    }
    o
}

/// Multiplications by the endomorphism's scalars: the generated table only.
fn endos<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(rng: &mut Rngs) -> Out2 {
    let mut o = Out2::new();
    for g in &["curve_mul_endo", "curve_mul_inv_endo"] {
        let q = points::<I>(5, rng)[4];
        let xs = vec![vec![Sf::<C>::FIVE], coords(q)];
        if let Some(b) = o.add::<C, I>(g, &[In::Virt, In::Pt], &[s(g, &[0, 1])], true, &[]) {
            let c = o.circuits.len();
            o.jobs.push(b.job(c, &xs, &[], true).tap(|j| j["noleaf"] = json!(true)));
        }
    }
    o
}

fn c19(dir: &str, seed: u64, thorough: bool) {
    let mut work: Vec<Box<dyn Fn(&mut Rngs) -> Out2 + Sync + Send>> = vec![];
    let t = if thorough { 5 } else { 1 };
    work.push(Box::new(move |r| msms::<Tweedledee, Tweedledum>(1, 2 * t, r)));
    work.push(Box::new(move |r| endos::<Tweedledee, Tweedledum>(r)));
    if thorough {
        work.push(Box::new(move |r| msms::<Vesta, Pallas>(1, 6, r)));
        work.push(Box::new(move |r| msms::<Tweedledum, Tweedledee>(2, 6, r)));
    }
    work.push(Box::new(move |r| curves::<G257, I257>(200 * t, r)));
    work.push(Box::new(move |r| curves::<G12289, I12289>(20 * t, r)));
    work.push(Box::new(move |r| curves::<Tweedledee, Tweedledum>(6 * t, r)));
    work.push(Box::new(move |r| curves::<Vesta, Pallas>(6 * t, r)));
    if thorough {
        work.push(Box::new(move |r| curves::<Tweedledum, Tweedledee>(30, r)));
        work.push(Box::new(move |r| curves::<Pallas, Vesta>(30, r)));
    }
    for _ in 0..20 * t {
        work.push(Box::new(move |r| curve_program::<G257, I257>(3, 20, r)));
        work.push(Box::new(move |r| curve_program::<G12289, I12289>(12, 4, r)));
    }
    work.push(Box::new(move |r| msms::<G257, I257>(1, 60 * t, r)));
    for parts in 1..3 {
        work.push(Box::new(move |r| msms::<G12289, I12289>(parts, 8 * t, r)));
    }
    finish(dir, seed, work);
}

fn finish(dir: &str, seed: u64, work: Vec<Box<dyn Fn(&mut Rngs) -> Out2 + Sync + Send>>) {
    let outs: Vec<Out2> = work.par_iter().enumerate().map(|(k, f)| f(&mut Rngs::seed_from_u64(seed * 100_000 + k as u64))).collect();
    let mut all = Out2::new();
    for o in outs {
        all.join(o);
    }
    all.write(dir);
}

fn main() {
    let (cmd, x) = vh::start();
    match cmd.as_str() {
        "c19" => c19(&x.dir, x.seed, x.thorough),
        "c20" => c20(&x.dir, x.seed, x.thorough),
        "c11" => c11(&x.dir, x.seed, x.thorough),
        _ => vh::unknown(),
    }
}
