//! Circuits to prove.
use plonky::*;
use rand::Rng;
use rand_chacha::ChaCha8Rng;

pub struct Case<C: HaloCurve> {
    pub circuit: Circuit<C>,
    pub inputs: Vec<(Target<C::ScalarField>, C::ScalarField)>,
    pub name: String,
}

impl<C: HaloCurve> Case<C> {
    pub fn partial(&self) -> PartialWitness<C::ScalarField> {
        let mut w = PartialWitness::new();
        for &(t, v) in &self.inputs {
            w.set_target(t, v);
        }
        w
    }
    pub fn table(&self) -> Vec<Vec<C::ScalarField>> {
        let w = self.circuit.generate_witness(self.partial());
        (0..self.circuit.degree()).map(|i| (0..9).map(|j| w.get_indices(i, j)).collect()).collect()
    }
}

pub fn pis_of<C: HaloCurve>(c: &Circuit<C>, table: &[Vec<C::ScalarField>]) -> Vec<C::ScalarField> {
    (0..c.num_public_inputs).map(|i| table[c.num_gates_without_pis + 2 * (i / 9)][i % 9]).collect()
}

fn value<F: Field>(rng: &mut ChaCha8Rng) -> F {
    match rng.gen_range(0, 4) {
        0 => F::from_canonical_usize(rng.gen_range(0, 9)),
        _ => F::rand_from_rng(rng),
    }
}

/// A chain of arithmetic over the public inputs and one private input; some public inputs are outputs,
/// some are not used at all.
pub fn basic<C: HaloCurve>(npi: usize, extra: usize, rng: &mut ChaCha8Rng) -> Case<C> {
    let mut b = CircuitBuilder::<C>::new(128);
    let mut inputs: Vec<(Target<C::ScalarField>, C::ScalarField)> = vec![];
    let ps = b.add_public_inputs(npi);
    let x = b.add_virtual_target();
    inputs.push((x, value(rng)));
    let mut acc = x;
    for (i, &p) in ps.iter().enumerate() {
        match (i + extra) % 4 {
            3 => b.copy(acc, p),
            2 if i + 2 < npi => inputs.push((p, value(rng))),
            k => {
                inputs.push((p, value(rng)));
                acc = if k == 0 { b.mul_add(acc, p, x) } else { b.mul_sub(acc, p, x) };
            }
        }
    }
    for i in 0..extra {
        acc = if i % 2 == 0 { b.square(acc) } else { b.add(acc, x) };
    }
    Case { circuit: b.build(), inputs, name: format!("basic-{}-{}", npi, extra) }
}

/// Hashing, curve arithmetic and the rest of the gates.
pub fn rich<C: HaloCurve, I: HaloCurve<BaseField = C::ScalarField>>(npi: usize, rng: &mut ChaCha8Rng) -> Case<C> {
    let mut b = CircuitBuilder::<C>::new(128);
    let mut inputs: Vec<(Target<C::ScalarField>, C::ScalarField)> = vec![];
    let ps = b.add_public_inputs(npi);
    let x = b.add_virtual_target();
    let y = b.add_virtual_target();
    inputs.push((x, value(rng)));
    inputs.push((y, C::ScalarField::rand_from_rng(rng)));
    for &p in &ps[..npi - 1] {
        inputs.push((p, value(rng)));
    }
    let (h1, h2) = b.rescue_hash_n_to_2(&[x, y, ps[0], ps[npi / 2]]);
    let d = b.div(h1, h2);
    let e = b.exp_constant_usize(d, 5);
    let zero = b.zero_wire();
    let t = b.is_zero(zero);
    let f = b.is_equal(h1, h2);
    let s = b.select(t, e, f);
    b.copy(s, ps[npi - 1]);
    b.assert_binary(t);
    let limbs: Vec<_> = (0..5)
        .map(|i| {
            let v = b.add_virtual_target();
            inputs.push((v, C::ScalarField::from_canonical_usize(i % 4)));
            v
        })
        .collect();
    b.assert_all_base_4(&limbs);
    let p = b.add_virtual_point_target::<I>();
    let q = b.add_virtual_point_target::<I>();
    for (t, g) in [(p, I::GENERATOR_AFFINE), (q, I::GENERATOR_AFFINE.double())].iter() {
        inputs.push((t.x, g.x));
        inputs.push((t.y, g.y));
    }
    let r = b.curve_add::<I>(p, q);
    let r2 = b.curve_double::<I>(r);
    b.curve_assert_valid::<I>(r2);
    Case { circuit: b.build(), inputs, name: format!("rich-{}", npi) }
}
