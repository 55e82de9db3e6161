//! The gates (C09, C10).
use plonky::*;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use rayon::prelude::*;
use serde_json::{json, Value};
use vh::js::*;
use vh::pts::res;
use vh::toy::*;

type Sf<C> = <C as Curve>::ScalarField;
const NAMES: [&str; 10] = ["pi", "add", "dbl", "endo", "base4", "buf", "const", "arith", "ra", "rb"];

macro_rules! dispatch {
    ($name:expr, $C:ident, $I:ident, $f:ident ( $($a:expr),* )) => {
        match $name {
            "pi" => $f::<$C, PublicInputGate<$C>>($($a),*),
            "add" => $f::<$C, CurveAddGate<$C, $I>>($($a),*),
            "dbl" => $f::<$C, CurveDblGate<$C, $I>>($($a),*),
            "endo" => $f::<$C, CurveEndoGate<$C, $I>>($($a),*),
            "base4" => $f::<$C, Base4SumGate<$C>>($($a),*),
            "buf" => $f::<$C, BufferGate<$C>>($($a),*),
            "const" => $f::<$C, ConstantGate<$C>>($($a),*),
            "arith" => $f::<$C, ArithmeticGate<$C>>($($a),*),
            "ra" => $f::<$C, RescueStepAGate<$C>>($($a),*),
            "rb" => $f::<$C, RescueStepBGate<$C>>($($a),*),
            _ => unreachable!(),
        }
    };
}

#[derive(Clone)]
struct Row<F> {
    c: Vec<F>,
    w: Vec<F>,
    r: Vec<F>,
    b: Vec<F>,
}

fn prefix<C: HaloCurve, G: Gate<C>>() -> Vec<bool> {
    G::PREFIX.to_vec()
}
fn unfiltered<C: HaloCurve, G: Gate<C>>(x: &Row<Sf<C>>) -> Vec<Sf<C>> {
    G::evaluate_unfiltered(&x.c, &x.w, &x.r, &x.b)
}
fn filtered<C: HaloCurve, G: Gate<C>>(x: &Row<Sf<C>>) -> Vec<Sf<C>> {
    G::evaluate_filtered(&x.c, &x.w, &x.r, &x.b)
}
fn filter<C: HaloCurve, G: Gate<C>>(c: &[Sf<C>]) -> Sf<C> {
    G::evaluate_prefix_filter(c)
}
fn prefix_of<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(g: &str) -> Vec<bool> {
    dispatch!(g, C, I, prefix())
}
fn unf<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(g: &str, x: &Row<Sf<C>>) -> Vec<Sf<C>> {
    dispatch!(g, C, I, unfiltered(x))
}
fn fil<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(g: &str, x: &Row<Sf<C>>) -> Vec<Sf<C>> {
    dispatch!(g, C, I, filtered(x))
}
fn sel<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(g: &str, c: &[Sf<C>]) -> Sf<C> {
    dispatch!(g, C, I, filter(c))
}
fn zero<F: Field>(v: &[F]) -> bool {
    v.iter().all(|x| x.is_zero())
}

/// An element: often a small or otherwise special one.
fn el<F: Field>(rng: &mut ChaCha8Rng) -> F {
    match rng.gen_range(0, 8) {
        0 => F::ZERO,
        1 => F::ONE,
        2 => F::from_canonical_usize(rng.gen_range(0, 5)),
        3 => F::NEG_ONE,
        _ => F::rand_from_rng(rng),
    }
}
fn els<F: Field>(n: usize, rng: &mut ChaCha8Rng) -> Vec<F> {
    (0..n).map(|_| el(rng)).collect()
}

fn mds<F: Field>(i: usize, j: usize) -> F {
    (F::from_canonical_usize(4 + i) - F::from_canonical_usize(j)).multiplicative_inverse().unwrap()
}

/// A row under the constants of a gate, the operation's outputs computed from random inputs (a failing
/// operation leaves them random). Nothing depends on this being right: the specification decides.
fn instance<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(g: &str, rng: &mut ChaCha8Rng) -> Row<Sf<C>> {
    let p = prefix_of::<C, I>(g);
    let mut c: Vec<Sf<C>> = p.iter().map(|&b| Sf::<C>::from_canonical_bool(b)).collect();
    while c.len() < 6 {
        c.push(el(rng));
    }
    let k = p.len();
    let (mut w, mut r, mut b) = (els::<Sf<C>>(9, rng), els::<Sf<C>>(9, rng), els::<Sf<C>>(9, rng));
    let one = Sf::<C>::ONE;
    let bit = |rng: &mut ChaCha8Rng| Sf::<C>::from_canonical_bool(rng.gen_range(0, 2) == 0);
    match g {
        "const" => w[0] = c[k],
        "arith" => w[3] = c[k] * w[0] * w[1] + c[k + 1] * w[2],
        "pi" => for j in 0..3 { r[j] = w[6 + j] },
        "base4" => {
            for j in 2..9 { w[j] = Sf::<C>::from_canonical_usize(rng.gen_range(0, 4)) }
            w[1] = w[2..].iter().fold(w[0], |a, &l| a.double().double() + l);
        }
        "ra" | "rb" => {
            let fifth = |x: Sf<C>| x.square().square() * x;
            let v: Vec<_> = if g == "ra" { for j in 0..4 { w[j] = fifth(w[4 + j]) }; w[4..8].to_vec() } else { w[..4].iter().map(|&x| fifth(x)).collect() };
            for i in 0..4 {
                r[i] = (0..4).fold(c[k + i], |a, j| a + mds::<Sf<C>>(i, j) * v[j]);
            }
        }
        "add" => {
            w[6] = bit(rng);
            w[3] = w[2].double() + w[6];
            if let Some(i) = (w[0] - w[4]).multiplicative_inverse() {
                w[7] = i;
                w[8] = (w[1] - w[5]) * i;
                let x = w[8].square() - w[0] - w[4];
                let y = w[8] * (w[0] - x) - w[1];
                if w[6] == one { r[0] = x; r[1] = y } else { r[0] = w[0]; r[1] = w[1] }
            }
        }
        "dbl" => {
            if let Some(i) = w[1].double().multiplicative_inverse() {
                w[4] = i;
                w[5] = (w[0].square() * Sf::<C>::THREE + I::A) * i;
                w[2] = w[5].square() - w[0].double();
                w[3] = w[5] * (w[0] - w[2]) - w[1];
            }
        }
        "endo" => {
            w[6] = bit(rng);
            w[7] = bit(rng);
            let m = if w[7] == one { I::ZETA } else { one };
            let s = if w[6] == one { one } else { -one };
            let (x2, y2) = (w[4] * m, w[5] * s);
            if let Some(i) = (w[0] - x2).multiplicative_inverse() {
                w[8] = i;
                let l = (w[1] - y2) * i;
                r[0] = l.square() - w[0] - x2;
                r[1] = l * (w[0] - r[0]) - w[1];
            }
            b[2] = w[2].double().double() + w[7].double() + w[6];
            b[3] = w[3].double() + m * s;
        }
        _ => {}
    }
    Row { c, w, r, b }
}

/// The wire positions of a row: its own, right and below ones.
fn pos<F: Field>(x: &mut Row<F>, i: usize) -> &mut F {
    match i / 9 {
        0 => &mut x.w[i % 9],
        1 => &mut x.r[i % 9],
        _ => &mut x.b[i % 9],
    }
}

fn row_js<F: Field>(op: &str, s: usize, g: &str, x: &Row<F>) -> Value {
    json!({"op": op, "s": s, "g": g, "c": fes(&x.c), "w": fes(&x.w), "rt": fes(&x.r), "b": fes(&x.b)})
}

fn setting<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>() -> Value {
    json!({"F": field::<Sf<C>>(), "A": fe(I::A), "zeta": fe(I::ZETA)})
}

/// Instances, with every single wire altered, and with values chosen to fool single equations.
fn points<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(s: usize, n: usize, all: bool, rng: &mut ChaCha8Rng, out: &mut Vec<Value>) {
    for &g in &NAMES {
        let mut emit = |x: &Row<Sf<C>>, what: &str| {
            let mut v = row_js("eval", s, g, x);
            v["what"] = json!(what);
            out.push(res(v, || if all {
                json!(zero(&evaluate_all_constraints::<C, I>(&x.c, &x.w, &x.r, &x.b)))
            } else {
                json!(zero(&unf::<C, I>(g, x)))
            }));
        };
        for k in 0..n {
            let x = instance::<C, I>(g, rng);
            emit(&x, "instance");
            if k < (n + 1) / 2 {
                for i in 0..27 {
                    // altering what is below matters to the endomorphism gate only
                    if i >= 18 && g != "endo" && i % 9 != k % 9 { continue }
                    let mut y = x.clone();
                    let d = loop { let d = el::<Sf<C>>(rng); if !d.is_zero() { break d } };
                    *pos(&mut y, i) = *pos(&mut y, i) + d;
                    emit(&y, "one wire altered");
                }
            }
            // two or three wires altered
            for _ in 0..3 {
                let mut y = x.clone();
                for _ in 0..rng.gen_range(2, 4) {
                    let i = rng.gen_range(0, 18);
                    *pos(&mut y, i) = el(rng);
                }
                emit(&y, "some wires altered");
            }
            // bits and limbs out of range, everything depending on them adapted
            let two = Sf::<C>::TWO;
            let bad = [two, Sf::<C>::NEG_ONE, Sf::<C>::from_canonical_usize(4), Sf::<C>::rand_from_rng(rng)];
            for &v in &bad {
                let mut y = x.clone();
                let f = Sf::<C>::FOUR;
                match g {
                    "base4" => {
                        let j = rng.gen_range(2, 9);
                        y.w[j] = v;
                        y.w[1] = y.w[2..].iter().fold(y.w[0], |a, &l| a * f + l);
                    }
                    "add" => {
                        y.w[6] = v;
                        y.w[3] = y.w[2].double() + v;
                        let x3 = y.w[8].square() - y.w[0] - y.w[4];
                        y.r[0] = v * x3 + (Sf::<C>::ONE - v) * y.w[0];
                        let y3 = y.w[8] * (y.w[0] - y.r[0]) - y.w[1];
                        y.r[1] = v * y3 + (Sf::<C>::ONE - v) * y.w[1];
                    }
                    "endo" => {
                        let j = rng.gen_range(6, 8);
                        y.w[j] = v;
                        let m = (I::ZETA - Sf::<C>::ONE) * y.w[7] + Sf::<C>::ONE;
                        let s = y.w[6].double() - Sf::<C>::ONE;
                        let (x2, y2) = (y.w[4] * m, y.w[5] * s);
                        if let Some(i) = (y.w[0] - x2).multiplicative_inverse() {
                            y.w[8] = i;
                            let l = (y.w[1] - y2) * i;
                            y.r[0] = l.square() - y.w[0] - x2;
                            y.r[1] = l * (y.w[0] - y.r[0]) - y.w[1];
                        }
                        y.b[2] = y.w[2] * f + y.w[7].double() + y.w[6];
                        y.b[3] = y.w[3].double() + m * s;
                    }
                    // equal abscissae, zero ordinates with the rest zero
                    "dbl" => {
                        y.w[1] = Sf::<C>::ZERO;
                        y.w[4] = v;
                        y.w[5] = (y.w[0].square() * Sf::<C>::THREE + I::A) * v;
                        y.w[2] = y.w[5].square() - y.w[0].double();
                        y.w[3] = y.w[5] * (y.w[0] - y.w[2]);
                    }
                    "ra" => {
                        // another root where there is one
                        let j = rng.gen_range(0, 4);
                        y.w[4 + j] = y.w[4 + j] * v;
                    }
                    _ => continue,
                }
                emit(&y, "out of range");
                if g == "add" || g == "endo" {
                    // the addend's abscissa made equal to the accumulator's
                    let mut y = x.clone();
                    y.w[4] = y.w[0];
                    if v != two { y.w[5] = y.w[1]; }
                    if v == bad[2] { y.w[7] = Sf::<C>::ZERO; y.w[8] = Sf::<C>::ZERO; }
                    emit(&y, "equal abscissae");
                }
            }
        }
    }
}

/// All solutions for a few free wires, the others fixed.
fn sat<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(s: usize, free: usize, n: usize, rng: &mut ChaCha8Rng, out: &mut Vec<Value>) {
    let p = order::<Sf<C>>().to_u64_digits()[0];
    for &g in &NAMES {
        for k in 0..n {
            let x = instance::<C, I>(g, rng);
            let mut cand: Vec<usize> = match g {
                "const" => vec![0, 1],
                "arith" => vec![0, 1, 2, 3],
                "pi" => vec![6, 7, 8, 9, 10, 11],
                "base4" => (0..9).collect(),
                "ra" => (0..8).chain(9..13).collect(),
                "rb" => (0..4).chain(9..13).collect(),
                "add" => (0..11).collect(),
                "dbl" => (0..6).collect(),
                "endo" => (0..11).chain(20..22).collect(),
                _ => vec![0, 5, 9, 18],
            };
            if k % 4 == 0 && g == "add" { cand = vec![7, 8, 9, 10, 3, 6] }
            if k % 4 == 0 && g == "endo" { cand = vec![6, 7, 8, 9, 10, 20, 21] }
            if k % 4 == 0 && g == "dbl" { cand = vec![2, 3, 4, 5] }
            while cand.len() > free {
                let i = rng.gen_range(0, cand.len());
                cand.remove(i);
            }
            let mut v = row_js("sat", s, g, &x);
            v["free"] = json!(cand);
            out.push(res(v, || {
                let mut y = x.clone();
                let mut sols = vec![];
                for m in 0..p.pow(cand.len() as u32) {
                    let mut m = m;
                    let mut t = vec![];
                    for &i in &cand {
                        *pos(&mut y, i) = Sf::<C>::from_canonical_u64(m % p);
                        t.push(m % p);
                        m /= p;
                    }
                    if zero(&unf::<C, I>(g, &y)) {
                        sols.push(t);
                    }
                }
                json!(sols)
            }));
        }
    }
}

fn drivers(g: &str) -> Vec<usize> {
    match g {
        "arith" => vec![0, 1, 2],
        "pi" => (0..9).collect(),
        "base4" => vec![0, 2, 3, 4, 5, 6, 7, 8],
        "ra" | "rb" => vec![0, 1, 2, 3],
        "add" => vec![0, 1, 2, 4, 5, 6],
        "dbl" => vec![0, 1],
        "endo" => vec![0, 1, 2, 3, 4, 5, 6, 7],
        _ => vec![],
    }
}

fn generate<C: HaloCurve, G: Gate<C>>(gate: G, rows: &[Vec<Sf<C>>], pw: &PartialWitness<Sf<C>>) -> PartialWitness<Sf<C>> {
    // a generator may rely on its dependencies only
    let mut given = PartialWitness::new();
    for t in gate.dependencies() {
        given.set_target(t, pw.get_target(t));
    }
    if gate.dependencies().is_empty() {
        for t in pw.all_populated_targets() {
            given.set_target(t, pw.get_target(t));
        }
    }
    gate.generate(rows, &given)
}

/// A finite point of the curve.
fn point<I: Curve>(rng: &mut ChaCha8Rng) -> AffinePoint<I> {
    if is_big::<I::BaseField>() {
        blake_hash_usize_to_curve::<I>(rng.gen_range(0, 1000))
    } else {
        loop {
            let (x, y) = (I::BaseField::rand_from_rng(rng), I::BaseField::rand_from_rng(rng));
            if y * y == x * x * x + I::A * x + I::B {
                return AffinePoint { x, y, zero: false };
            }
        }
    }
}

/// What a gate's generator writes, at several rows.
fn gens<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(s: usize, n: usize, rng: &mut ChaCha8Rng, out: &mut Vec<Value>) {
    for &g in &NAMES {
        for _ in 0..n {
            let mut x = instance::<C, I>(g, rng);
            let one = Sf::<C>::ONE;
            if g == "endo" {
                // the accumulator and the point to be added are points of the curve
                let (a, q) = (point::<I>(rng), point::<I>(rng));
                x.w[0] = a.x;
                x.w[1] = a.y;
                x.w[4] = if x.w[7] == one { q.x / I::ZETA } else { q.x };
                x.w[5] = if x.w[6] == one { q.y } else { -q.y };
            }
            let x2 = if g == "endo" && x.w[7] == one { I::ZETA * x.w[4] } else { x.w[4] };
            if (g == "add" || g == "endo") && x2 == x.w[0] || g == "dbl" && x.w[1].is_zero() {
                continue; // outside of the operation's domain
            }
            let at = rng.gen_range(0, 4);
            out.push(res(json!({"op": "gen", "s": s, "g": g, "d": drivers(g), "in": fes(&x.w), "c": fes(&x.c)}), || {
                let mut rows: Vec<Vec<Sf<C>>> = (0..5).map(|_| els(6, rng)).collect();
                rows[at] = x.c.clone();
                let mut pw = PartialWitness::new();
                for &i in &drivers(g) {
                    pw.set_wire(Wire { gate: at, input: i }, x.w[i]);
                }
                let o = match g {
                    "pi" => generate(PublicInputGate::<C>::new(at), &rows, &pw),
                    "add" => generate(CurveAddGate::<C, I>::new(at), &rows, &pw),
                    "dbl" => generate(CurveDblGate::<C, I>::new(at), &rows, &pw),
                    "endo" => generate(CurveEndoGate::<C, I>::new(at), &rows, &pw),
                    "base4" => generate(Base4SumGate::<C>::new(at), &rows, &pw),
                    "buf" => generate(BufferGate::<C>::new(at), &rows, &pw),
                    "const" => generate(ConstantGate::<C>::new(at), &rows, &pw),
                    "arith" => generate(ArithmeticGate::<C>::new(at), &rows, &pw),
                    "ra" => generate(RescueStepAGate::<C>::new(at), &rows, &pw),
                    _ => generate(RescueStepBGate::<C>::new(at), &rows, &pw),
                };
                let mut keep = true;
                let mut get = |row: usize, j: usize| {
                    let w = Wire { gate: row, input: j };
                    let old = if pw.contains_wire(w) { Some(pw.get_wire(w)) } else { None };
                    let new = if o.contains_wire(w) { Some(o.get_wire(w)) } else { None };
                    if let (Some(a), Some(b)) = (old, new) {
                        keep &= a == b;
                    }
                    new.or(old).unwrap_or(Sf::<C>::ZERO)
                };
                let w: Vec<_> = (0..9).map(|j| get(at, j)).collect();
                let r: Vec<_> = (0..9).map(|j| get(at + 1, j)).collect();
                let b: Vec<_> = (0..9).map(|j| get(at + 65, j)).collect();
                json!({"w": fes(&w), "rt": fes(&r), "b": fes(&b), "keep": keep})
            }));
        }
    }
}

fn rec_one<C: HaloCurve, G: Gate<C>>(b: &mut CircuitBuilder<C>, c: &[Target<Sf<C>>], w: &[Target<Sf<C>>], r: &[Target<Sf<C>>], l: &[Target<Sf<C>>]) -> (Vec<Target<Sf<C>>>, Vec<Target<Sf<C>>>) {
    (G::evaluate_unfiltered_recursively(b, c, w, r, l), G::evaluate_filtered_recursively(b, c, w, r, l))
}

/// The constraints computed by circuits.
fn recs<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(s: usize, n: usize, with_all: bool, rng: &mut ChaCha8Rng) -> Vec<Value> {
    let mut out = vec![];
    let mut names = NAMES.to_vec();
    if with_all {
        names.push("all");
    }
    for &g in &names {
        let built = catch(|| {
            let mut b = CircuitBuilder::<C>::new(128);
            let ts = b.add_virtual_targets(33);
            let (c, w, r, l) = (&ts[..6], &ts[6..15], &ts[15..24], &ts[24..]);
            let (u, f) = if g == "all" {
                (vec![], evaluate_all_constraints_recursively::<C, I>(&mut b, c, w, r, l))
            } else {
                dispatch!(g, C, I, rec_one(&mut b, c, w, r, l))
            };
            (ts, u, f, b.build())
        });
        let (ts, u, f, circuit) = match built {
            Ok(x) => x,
            Err(e) => {
                out.push(json!({"op": "rec", "s": s, "g": g, "ok": false, "err": e}));
                continue;
            }
        };
        for k in 0..n {
            let mut x = instance::<C, I>(if g == "all" { NAMES[rng.gen_range(0, 10)] } else { g }, rng);
            if k % 2 == 1 {
                x = Row { c: els(6, rng), w: els(9, rng), r: els(9, rng), b: els(9, rng) };
            }
            if k % 4 == 2 {
                let i = rng.gen_range(0, 18);
                *pos(&mut x, i) = el(rng);
            }
            let vals: Vec<_> = x.c.iter().chain(&x.w).chain(&x.r).chain(&x.b).cloned().collect();
            out.push(res(row_js("rec", s, g, &x), || {
                let mut pw = PartialWitness::new();
                pw.set_targets(&ts, &vals);
                let wit = circuit.generate_partial_witness(pw);
                let (nu, nf) = if g == "all" {
                    (vec![], evaluate_all_constraints::<C, I>(&x.c, &x.w, &x.r, &x.b))
                } else {
                    (unf::<C, I>(g, &x), fil::<C, I>(g, &x))
                };
                json!({"nat": fes(&nu), "natf": fes(&nf), "rec": fes(&wit.get_targets(&u)), "recf": fes(&wit.get_targets(&f))})
            }));
        }
    }
    out
}

/// A circuit of randomly placed gates, and what each of its rows asks for.
fn layout<C: HaloCurve, I: HaloCurve<BaseField = Sf<C>>>(s: usize, npi: usize, len: usize, per_row: usize, rng: &mut ChaCha8Rng) -> Vec<Value> {
    let prog: Vec<&str> = (0..len).map(|_| NAMES[rng.gen_range(0, NAMES.len())]).collect();
    let cfgs: Vec<Vec<Sf<C>>> = prog.iter().map(|&g| {
        let k = 6 - prefix_of::<C, I>(g).len();
        let n = if rng.gen_range(0, 3) == 0 { rng.gen_range(0, k + 1) } else { k };
        els(n, rng)
    }).collect();
    let mut out = vec![];
    let mut circuit = None;
    let head = res(json!({"op": "layout", "s": s, "prog": prog, "npi": npi, "cfg": fess(&cfgs)}), || {
        let mut b = CircuitBuilder::<C>::new(128);
        b.add_public_inputs(npi);
        for (i, (&g, cfg)) in prog.iter().zip(&cfgs).enumerate() {
            let cfg = cfg.clone();
            match g {
                "pi" => b.add_gate(PublicInputGate::<C>::new(i), cfg),
                "add" => b.add_gate(CurveAddGate::<C, I>::new(i), cfg),
                "dbl" => b.add_gate(CurveDblGate::<C, I>::new(i), cfg),
                "endo" => b.add_gate(CurveEndoGate::<C, I>::new(i), cfg),
                "base4" => b.add_gate(Base4SumGate::<C>::new(i), cfg),
                "buf" => b.add_gate(BufferGate::<C>::new(i), cfg),
                "const" => b.add_gate(ConstantGate::<C>::new(i), cfg),
                "arith" => b.add_gate(ArithmeticGate::<C>::new(i), cfg),
                "ra" => b.add_gate(RescueStepAGate::<C>::new(i), cfg),
                _ => b.add_gate(RescueStepBGate::<C>::new(i), cfg),
            }
        }
        let c = b.build();
        let rows: Vec<Value> = c.gate_constants.iter().map(|row| {
            let on: Vec<&str> = NAMES.iter().filter(|&g| !sel::<C, I>(g, row).is_zero()).cloned().collect();
            json!(on)
        }).collect();
        let v = json!({"on": rows, "c": fess(&c.gate_constants), "off": c.num_gates_without_pis, "npi": c.num_public_inputs,
            // the constants the prover uses: the polynomials over the rows
            "poly": fess(&(0..6).map(|j| c.subgroup_n.iter().map(|&x| c.constant_polynomials[j].eval(x)).collect::<Vec<_>>()).collect::<Vec<_>>())});
        circuit = Some(c);
        v
    });
    out.push(head);
    let c = match circuit { Some(c) => c, None => return out };
    for (k, row) in c.gate_constants.iter().enumerate() {
        let g = if k < len { prog[k] } else if k >= c.num_gates_without_pis && (k - c.num_gates_without_pis) % 2 == 0 && k < c.num_gates_without_pis + 2 * ((npi + 8) / 9) { "pi" } else { "buf" };
        for j in 0..per_row {
            let mut x = instance::<C, I>(g, rng);
            x.c = row.clone();
            // recompute what depends on the constants
            let p = prefix_of::<C, I>(g).len();
            match g {
                "const" => x.w[0] = row[p],
                "arith" => x.w[3] = row[p] * x.w[0] * x.w[1] + row[p + 1] * x.w[2],
                "ra" | "rb" => {
                    let v: Vec<_> = if g == "ra" { x.w[4..8].to_vec() } else { x.w[..4].iter().map(|&x| x.square().square() * x).collect() };
                    for i in 0..4 { x.r[i] = (0..4).fold(row[p + i], |a, j| a + mds::<Sf<C>>(i, j) * v[j]); }
                }
                _ => {}
            }
            if j % 2 == 1 {
                let i = rng.gen_range(0, 18);
                *pos(&mut x, i) = *pos(&mut x, i) + Sf::<C>::ONE;
            }
            let mut v = row_js("eval", s, g, &x);
            v["what"] = json!(format!("row {} of a circuit", k));
            out.push(res(v, || json!(zero(&evaluate_all_constraints::<C, I>(&x.c, &x.w, &x.r, &x.b)))));
        }
    }
    out
}

type Job = Box<dyn Fn(&mut ChaCha8Rng) -> Vec<Value> + Send + Sync>;

fn main() {
    let (cmd, ctx) = vh::start();
    let mut hdr: Vec<Value> = vec![];
    let mut jobs: Vec<Job> = vec![];
    macro_rules! set { ($c:ty, $i:ty) => {{ hdr.push(setting::<$c, $i>()); hdr.len() }} }
    let n = if ctx.thorough { 8 } else { 1 };
    let th = ctx.thorough;
    match cmd.as_str() {
        "c10" => {
            macro_rules! real { ($c:ty, $i:ty, $m:expr, $k:expr) => {{
                let s = set!($c, $i);
                for _ in 0..$m {
                    jobs.push(Box::new(move |rng| { let mut o = vec![]; points::<$c, $i>(s, $k, false, rng, &mut o); gens::<$c, $i>(s, 6, rng, &mut o); o }));
                }
                s
            }}}
            macro_rules! recj { ($c:ty, $i:ty, $s:expr, $k:expr, $all:expr) => {{ let s = $s; jobs.push(Box::new(move |rng| recs::<$c, $i>(s, $k, $all, rng))); }} }
            let s = real!(Tweedledee, Tweedledum, n, 4);
            recj!(Tweedledee, Tweedledum, s, 6, true);
            let s = real!(Tweedledum, Tweedledee, n, 4);
            recj!(Tweedledum, Tweedledee, s, 6, th);
            let s = real!(Pallas, Vesta, n, 2);
            recj!(Pallas, Vesta, s, 3, th);
            let s = real!(Vesta, Pallas, n, 2);
            recj!(Vesta, Pallas, s, 3, th);
            let s = real!(G12289, I12289, 4 * n, 6);
            recj!(G12289, I12289, s, 60, true);
            let s = real!(O17, I17, 4 * n, 12);
            jobs.push(Box::new(move |rng| { let mut o = vec![]; sat::<O17, I17>(s, 3, 8 * n, rng, &mut o); o }));
            let s = real!(O13, I13, 4 * n, 12);
            jobs.push(Box::new(move |rng| { let mut o = vec![]; sat::<O13, I13>(s, 3, 8 * n, rng, &mut o); o }));
        }
        "c09" => {
            macro_rules! real { ($c:ty, $i:ty, $m:expr, $k:expr) => {{
                let s = set!($c, $i);
                jobs.push(Box::new(move |rng| {
                    let mut o = vec![json!({"op": "prefix", "s": s, "ok": true, "ps": NAMES.iter().map(|g| json!([g, prefix_of::<$c, $i>(g).iter().map(|&b| b as u8).collect::<Vec<_>>()])).collect::<Vec<_>>()})];
                    points::<$c, $i>(s, $k, true, rng, &mut o);
                    o
                }));
                for j in 0..$m {
                    jobs.push(Box::new(move |rng| {
                        let npi = [0, 1, 9, 10, 3, 19, 27, 5][j % 8];
                        let len = rng.gen_range(1, 20);
                        layout::<$c, $i>(s, npi, len, 2, rng)
                    }));
                }
                s
            }}}
            real!(Tweedledee, Tweedledum, 3 * n, 2);
            real!(Tweedledum, Tweedledee, 2 * n, 1);
            real!(Pallas, Vesta, n, 1);
            real!(Vesta, Pallas, n, 1);
            let _ = real!(G12289, I12289, 24 * n, 4);
            real!(G257, I257, 8 * n, 4);
        }
        _ => vh::unknown(),
    }
    let recs: Vec<Vec<Value>> = jobs.par_iter().enumerate().map(|(i, j)| {
        let mut rng = ChaCha8Rng::seed_from_u64(ctx.seed * 1000 + i as u64);
        j(&mut rng)
    }).collect();
    let mut h = Out::new(&format!("{}/hdr.ndjson", ctx.dir));
    for v in hdr { h.rec(v) }
    let mut o = Out::new(&format!("{}/trace.ndjson", ctx.dir));
    for v in recs.into_iter().flatten() { o.rec(v) }
}
