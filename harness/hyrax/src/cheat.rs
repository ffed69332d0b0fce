//! Interactive provers of false outputs: the witness is committed to honestly, the outputs
//! claimed are others, and all but one of the verifier's equations hold.
use ark_ff::{Field, One, Zero};
use ark_poly::{univariate::DensePolynomial, Polynomial, UVPolynomial};
use mccore::*;
use mcfs::fixed;
use merlin::mc::scripted;
use merlin::Transcript;
use zkp_curve::{AffineCurve, ProjectiveCurve};
use zkp_hyrax::commitment::{EqProof, LogDotProductProof};
use zkp_hyrax::evaluate::{construct_matrix, eval_eq, eval_eq_x_y, eval_outputs, eval_value, packing_poly_commit, poly_commit_vec, random_bytes_to_fr};
use zkp_hyrax::hyrax_proof::HyraxProof;
use zkp_hyrax::zk_sumcheck_proof::ZkSumcheckProof;

use crate::{circuit, ser, Hyrax, E, F};

#[derive(Clone, Debug, PartialEq)]
pub enum Lie {
    Nothing,
    /// output i of copy t is off by one
    Output(usize, usize),
    /// at layer d, operand i of copy t differs by one from what it is: on the left, the right or both
    Operand(usize, bool, bool, usize, usize),
}
/// what absorbs the difference at the end of a layer
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fix {
    /// a claimed operand, which the next layer carries on
    Left,
    Right,
    /// a claimed operand; the next layer starts from a true claim again
    LeftThenTruth,
    RightThenTruth,
    /// the claimed product
    Product,
    Nothing,
}
fn extend(t: &[Vec<F>], copies: &[F], nodes: &[F]) -> F {
    let (a, b) = (eval_eq::<E>(&copies.to_vec()), eval_eq::<E>(&nodes.to_vec()));
    let mut s = F::zero();
    for (x, row) in t.iter().enumerate() {
        for (i, v) in row.iter().enumerate() {
            s += a[x] * b[i] * v;
        }
    }
    s
}
struct Layer<'a> {
    gates: &'a [zkp_hyrax::circuit::Gate],
    left: &'a [Vec<F>],
    right: &'a [Vec<F>],
    q: &'a [F],
    weight: Vec<F>,
    n: usize,
    g: usize,
}
impl Layer<'_> {
    fn at(&self, p: &[F]) -> F {
        let (t, p) = p.split_at(self.n);
        let (l, r) = p.split_at(self.g);
        let (add, mul) = self.wiring(t, l, r);
        let (x, y) = (extend(self.left, t, l), extend(self.right, t, r));
        add * (x + y) + mul * x * y
    }
    fn wiring(&self, t: &[F], l: &[F], r: &[F]) -> (F, F) {
        let e = eval_eq_x_y::<E>(&self.q.to_vec(), &t.to_vec());
        let (a, b) = (eval_eq::<E>(&l.to_vec()), eval_eq::<E>(&r.to_vec()));
        let mut s = (F::zero(), F::zero());
        for (k, g) in self.gates.iter().enumerate() {
            let v = e * self.weight[k] * a[g.left_node] * b[g.right_node];
            if g.op == 0 {
                s.0 += v
            } else {
                s.1 += v
            }
        }
        s
    }
    /// the sum over all ways to complete the point
    fn sum(&self, p: &mut Vec<F>) -> F {
        if p.len() == self.n + 2 * self.g {
            return self.at(p);
        }
        let mut s = F::zero();
        for b in [F::zero(), F::one()] {
            p.push(b);
            s += self.sum(p);
            p.pop();
        }
        s
    }
    /// coefficients of the next round's polynomial
    fn round(&self, p: &[F]) -> Vec<F> {
        let deg = if p.len() < self.n { 3 } else { 2 };
        let xs: Vec<F> = (0..=deg).map(|i| F::from(i as u64)).collect();
        let ys: Vec<F> = xs
            .iter()
            .map(|x| {
                let mut q = p.to_vec();
                q.push(*x);
                self.sum(&mut q)
            })
            .collect();
        let mut out = vec![F::zero(); deg + 1];
        for i in 0..=deg {
            let mut c = vec![ys[i]];
            for j in 0..=deg {
                if i != j {
                    let d = (xs[i] - xs[j]).inverse().unwrap();
                    let mut n = vec![F::zero(); c.len() + 1];
                    for (k, v) in c.iter().enumerate() {
                        n[k + 1] += *v * d;
                        n[k] -= *v * d * xs[j];
                    }
                    c = n;
                }
            }
            for (k, v) in c.iter().enumerate() {
                out[k] += v;
            }
        }
        out
    }
}
fn draw(t: &mut Transcript) -> F {
    let mut buf = [0u8; 32];
    t.challenge_bytes(b"c", &mut buf);
    random_bytes_to_fr::<E>(&buf)
}
/// One run: the outputs claimed and the proof. `fixes` is consumed layer by layer from the output
/// wherever there is a difference; `dot`: a false operand of the input layer goes into the claimed
/// evaluation of the witness instead of the comparison with it.
pub fn run(h: &Hyrax, c: &LCase<F>, lie: &Lie, fixes: &[Fix], dot: bool) -> Option<(Vec<Vec<F>>, Vec<u8>)> {
    let z = circuit(&c.c);
    let _ = z.circuit_to_hash::<E>();
    let n = c.aux.len();
    let (sc, pc) = (&h.params.sc_params, &h.params.pc_params);
    let rng = &mut Coins::seeded(77);
    let base: Vec<Vec<F>> = (0..n).map(|t| c.c.base(&c.aux[t], &c.inputs[t])).collect();
    let (mut lefts, mut rights) = (vec![base.clone()], vec![base.clone()]);
    for (d, l) in c.c.layers.iter().enumerate() {
        if let Lie::Operand(at, on_left, on_right, t, i) = lie {
            if *at == d {
                if *on_left {
                    *lefts[d].get_mut(*t)?.get_mut(*i)? += F::one();
                }
                if *on_right {
                    *rights[d].get_mut(*t)?.get_mut(*i)? += F::one();
                }
            }
        }
        let v: Vec<Vec<F>> = (0..n).map(|t| l.iter().map(|(o, a, b)| if *o == 0 { lefts[d][t][*a] + rights[d][t][*b] } else { lefts[d][t][*a] * rights[d][t][*b] }).collect()).collect();
        lefts.push(v.clone());
        rights.push(v);
    }
    let honest = lefts.last()?.clone();
    let mut out = honest.clone();
    if let Lie::Output(t, i) = lie {
        *out.get_mut(*t)?.get_mut(*i)? += F::one();
    }
    let mut tr = Transcript::new(b"cheat");
    let tr = &mut tr;
    let witness: Vec<F> = base.iter().flat_map(|b| b[..c.c.half()].to_vec()).collect();
    let (comm_witness, blinds) = packing_poly_commit::<E, _>(&pc.gen_n.generators, &witness, &pc.gen_n.h, rng, true);
    let (mut claim, mut q, mut ql) = eval_outputs::<E>(&out, tr);
    let mut qr = ql.clone();
    let (mut u0, mut u1, mut rc) = (F::one(), F::zero(), F::zero());
    let one = |v: F, r: F| poly_commit_vec::<E>(&sc.gen_1.generators, &vec![v], &sc.gen_1.h, r);
    let mut proofs = vec![];
    let mut fixes = fixes.iter();
    let (mut x, mut y, mut rx, mut ry) = (F::zero(), F::zero(), F::zero(), F::zero());
    for d in (1..z.depth).rev() {
        let lg = z.layers[d - 1].gates_count.next_power_of_two().trailing_zeros() as usize;
        let ln = n.trailing_zeros() as usize;
        let (e0, e1) = (eval_eq::<E>(&ql), eval_eq::<E>(&qr));
        let gates = &z.layers[d].gates;
        let layer = Layer { gates, left: &lefts[d - 1], right: &rights[d - 1], q: &q, weight: gates.iter().map(|g| u0 * e0[g.g] + u1 * e1[g.g]).collect(), n: ln, g: lg };
        let comm_a0 = one(claim, rc);
        let (mut point, mut polys, mut alphas, mut comm_polys, mut comm_evals) = (vec![], vec![], vec![], vec![], vec![]);
        for j in 0..ln + 2 * lg {
            let mut p = layer.round(&point);
            let at1: F = p.iter().sum();
            let gap = claim - at1 - p[0];
            p[0] += gap * F::from(2u64).inverse()?;
            let gens = if j < ln { &sc.gen_4 } else { &sc.gen_3 };
            let a = F::from(1000 + j as u64);
            comm_polys.push(poly_commit_vec::<E>(&gens.generators, &p, &gens.h, a));
            alphas.push(a);
            let r = draw(tr);
            point.push(r);
            claim = DensePolynomial::from_coefficients_vec(p.clone()).evaluate(&r);
            comm_evals.push(one(claim, F::one()));
            polys.extend(p);
        }
        let (t, lr) = point.split_at(ln);
        let (l, r) = lr.split_at(lg);
        let (t, l, r) = (t.to_vec(), l.to_vec(), r.to_vec());
        let (add, mul) = layer.wiring(&t, &l, &r);
        let (tx, ty) = (extend(layer.left, &t, &l), extend(layer.right, &t, &r));
        x = tx;
        y = ty;
        let off = claim - (add * (x + y) + mul * x * y);
        let mut product = F::zero();
        let mut truth = false;
        if !off.is_zero() {
            match fixes.next().unwrap_or(&Fix::Nothing) {
                Fix::Nothing => (),
                Fix::Left => x += off * (add + mul * y).inverse()?,
                Fix::Right => y += off * (add + mul * x).inverse()?,
                Fix::LeftThenTruth => {
                    x += off * (add + mul * y).inverse()?;
                    truth = true
                }
                Fix::RightThenTruth => {
                    y += off * (add + mul * x).inverse()?;
                    truth = true
                }
                Fix::Product => product = off * mul.inverse()?,
            }
        }
        polys.extend([x, y, x * y]);
        let m = construct_matrix::<E>((&t, &l, &r), (&q, &ql, &qr), gates, (u0, u1), ln, lg);
        let ((prod_proof, comm_x, comm_y, comm_z), comm_deltas, comm_c, z_vec, z_delta_vec, zc, b) = ZkSumcheckProof::<E>::sumcheck_prover(sc, (x, y), lg, ln, &m, &polys, &alphas, rc, rng, tr);
        rx = b[0];
        ry = b[1];
        let comm_z = (comm_z.into_projective() + sc.gen_1.generators[0].mul(product)).into_affine();
        proofs.push(ZkSumcheckProof { prod_proof, comm_a0, comm_c, comm_x, comm_y, comm_z, comm_polys, comm_evals, comm_deltas, z_vec, z_delta_vec, zc });
        if d > 1 {
            u0 = draw(tr);
            u1 = draw(tr);
            let (a, b) = if truth { (tx, ty) } else { (x, y) };
            claim = u0 * a + u1 * b;
            rc = u0 * rx + u1 * ry;
        }
        q = t;
        ql = l;
        qr = r;
    }
    let inputs: Vec<F> = base.iter().flat_map(|b| b[c.c.half()..].to_vec()).collect();
    let mut ends = vec![];
    for (v, rv, side) in [(x, rx, &ql), (y, ry, &qr)] {
        let mut at = q.clone();
        at.extend_from_slice(&side[1..]);
        let mut w = eval_value::<E>(&witness, &at);
        if dot {
            w = (v - side[0] * eval_value::<E>(&inputs, &at)) * (F::one() - side[0]).inverse()?;
        }
        let b = F::from(9u64);
        let (p, c) = LogDotProductProof::<E>::reduce_prover(pc, &witness, &blinds, &at, b, w, rng, tr);
        let e = EqProof::<E>::prover(&pc.gen_1, v, rv, v, (F::one() - side[0]) * b, rng, tr);
        ends.push((p, c, e));
    }
    let (prod_proof1, comm_y1, eq_proof1) = ends.pop()?;
    let (prod_proof0, comm_y0, eq_proof0) = ends.pop()?;
    Some((out, ser(&HyraxProof::<E> { comm_witness, proofs, prod_proof0, comm_y0, eq_proof0, prod_proof1, comm_y1, eq_proof1 })))
}
pub fn provers(ctx: &Ctx, h: &Hyrax, cs: &[LCase<F>]) {
    let mut jobs: Vec<(usize, Lie)> = vec![];
    for (k, c) in cs.iter().enumerate() {
        jobs.push((k, Lie::Nothing));
        let n = c.c.layers.len();
        for t in 0..c.aux.len() {
            for i in 0..c.c.layers[n - 1].len() {
                jobs.push((k, Lie::Output(t, i)));
            }
            for d in 0..n {
                let w = if d == 0 { 2 * c.c.half() } else { c.c.layers[d - 1].len() };
                for i in 0..w {
                    for (a, b) in [(true, false), (false, true), (true, true)] {
                        jobs.push((k, Lie::Operand(d, a, b, t, i)));
                    }
                }
            }
        }
    }
    par_for(&jobs, |_, (k, lie)| {
        let c = &cs[*k];
        let truth: Vec<Vec<F>> = (0..c.aux.len()).map(|t| c.c.over(&c.c.base(&c.aux[t], &c.inputs[t]))).collect();
        let inputs = c.inputs.clone();
        let n = c.c.layers.len();
        let mut plans: Vec<Vec<Fix>> = vec![];
        for j in 0..=n {
            for m in 0..1usize << j {
                let v: Vec<Fix> = (0..j).map(|i| if m >> i & 1 == 0 { Fix::Left } else { Fix::Right }).collect();
                if j == n {
                    plans.push(v);
                    continue;
                }
                for f in [Fix::Nothing, Fix::Product, Fix::LeftThenTruth, Fix::RightThenTruth] {
                    let mut v = v.clone();
                    v.push(f);
                    plans.push(v);
                }
            }
        }
        for plan in plans {
            if *lie == Lie::Nothing && plan[0] != Fix::Nothing {
                continue;
            }
            for dot in [false, true] {
                let made = match scripted(fixed(1, None), || guard(|| run(h, c, lie, &plan, dot))) {
                    Ok(Some(x)) => x,
                    _ => {
                        ctx.count("plans without a proof", 1);
                        continue;
                    }
                };
                let st = Stmt { outputs: made.0.clone(), inputs: inputs.clone() };
                let v = scripted(fixed(1, None), || h.verify(&c.c, &made.1, &st));
                ctx.step(1);
                ctx.trace(1);
                if made.0 == truth {
                    if *lie == Lie::Nothing {
                        ctx.count(if v.acc() { "interactive honest prover accepted" } else { "interactive honest prover rejected" }, 1);
                    }
                    continue;
                }
                ctx.state(&(*k, format!("{:?}{:?}", lie, plan), dot));
                ctx.check(!v.acc(), "false-output-proved", || format!("{}: with the witness committed to, outputs {:?} for {:?} (lie {:?}, differences absorbed by {:?}, dot {}) accepted", c.show(), made.0.iter().map(|o| vs(o)).collect::<Vec<_>>(), truth.iter().map(|o| vs(o)).collect::<Vec<_>>(), lie, plan, dot));
            }
        }
    });
    ctx.bound(format!(
        "interactive provers of false outputs on {} circuits with 1..2 copies: each output off by one, each operand of each layer falsified on the left, the right or both; the difference carried through any number of layers by either operand and absorbed by an operand with a fresh claim, the claimed product, nothing, the comparison with the witness or its claimed evaluation",
        cs.len()
    ));
}
