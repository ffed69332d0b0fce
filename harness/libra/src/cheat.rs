//! Interactive provers of the plain argument for false outputs: every equation of the verifier
//! but one is satisfied, for every choice of the one.
use ark_ff::{Field, One, Zero};
use ark_poly::Polynomial;
use mccore::*;
use mcfs::fixed;
use merlin::mc::scripted;
use merlin::Transcript;
use zkp_libra::evaluate::{eval_output, random_bytes_to_fr};
use zkp_libra::libra_linear_gkr::{initialize_phase_one, initialize_phase_two, LayerProof, LinearGKRProof};
use zkp_libra::sumcheck::SumCheckProof;

use crate::{circuit, enc, LScheme, Plain, E, F};

/// where the lie starts
#[derive(Clone, Debug, PartialEq)]
pub enum Lie {
    Nothing,
    /// the claimed output i is off by one
    Output(usize),
    /// at layer d, operand i differs by one between its uses on the left and on the right
    Split(usize, bool, usize),
}
/// what absorbs the difference at the end of a layer's second phase
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fix {
    Nothing,
    Value,
    Mult,
    Add,
}
fn pad(v: &[F], bits: usize) -> Vec<F> {
    let mut v = v.to_vec();
    v.resize(1 << bits, F::zero());
    v
}
/// One run: the outputs claimed and the proof. `fixes` is consumed layer by layer from the output.
pub fn run(c: &Lc, base: &[F], lie: &Lie, fixes: &[Fix]) -> Option<(Vec<F>, Vec<u8>)> {
    let z = circuit(c);
    // (the circuit's hash is a challenge of a transcript of its own)
    let _ = z.circuit_to_hash::<E>();
    let mut lefts = vec![base.to_vec()];
    let mut rights = vec![base.to_vec()];
    for (d, l) in c.layers.iter().enumerate() {
        if let Lie::Split(at, right, i) = lie {
            if *at == d {
                let v = if *right { &mut rights[d] } else { &mut lefts[d] };
                *v.get_mut(*i)? += F::one();
            }
        }
        let v: Vec<F> = l.iter().map(|(o, a, b)| if *o == 0 { lefts[d][*a] + rights[d][*b] } else { lefts[d][*a] * rights[d][*b] }).collect();
        lefts.push(v.clone());
        rights.push(v);
    }
    let mut out = lefts.last()?.clone();
    if let Lie::Output(i) = lie {
        *out.get_mut(*i)? += F::one();
    }
    let mut tr = Transcript::new(b"cheat");
    let t = &mut tr;
    let draw = |t: &mut Transcript| {
        let mut buf = [0u8; 32];
        t.challenge_bytes(b"c", &mut buf);
        random_bytes_to_fr::<E>(&buf)
    };
    let (mut alpha, mut beta) = (F::one(), F::zero());
    let (mut ru_claim, mut gu) = eval_output::<E>(&out, z.layers[z.depth - 1].bit_size, t);
    let (mut gv, mut rv_claim) = (vec![F::zero(); gu.len()], F::zero());
    let mut proofs = vec![];
    let mut fixes = fixes.iter();
    for d in (1..z.depth).rev() {
        let claim = alpha * ru_claim + beta * rv_claim;
        let bits = z.layers[d - 1].bit_size;
        let (l, r) = (pad(&lefts[d - 1], bits), pad(&rights[d - 1], bits));
        let hg = initialize_phase_one::<E>(&gu, &gv, &z.layers[d].gates, &r, bits, alpha, beta);
        let (mut p1, ru) = SumCheckProof::<E>::phase_one_prover(&l, &hg, bits, claim, t);
        // the difference so far moves into the value that nobody looks at on its own
        let end = match p1.polys.last() {
            Some(p) => p.evaluate(ru.last()?),
            None => claim,
        };
        let e = p1.poly_value_at_r.clone();
        p1.poly_value_at_r[3] += end - (e[0] * e[1] + e[0] * e[2] + e[3]);
        let (m, a, fu) = initialize_phase_two::<E>(&gu, &gv, &ru, &z.layers[d].gates, &l, bits, alpha, beta);
        let (mut p2, rv) = SumCheckProof::<E>::phase_two_prover(&r, &(m, a, fu), bits, end, t);
        let end = match p2.polys.last() {
            Some(p) => p.evaluate(rv.last()?),
            None => end,
        };
        let v = p2.poly_value_at_r.clone();
        let off = end - (v[0] * v[1] * fu + v[2] * fu + v[2] * v[0]);
        if !off.is_zero() {
            match fixes.next().unwrap_or(&Fix::Nothing) {
                Fix::Nothing => (),
                Fix::Value => p2.poly_value_at_r[0] += off * (v[1] * fu + v[2]).inverse()?,
                Fix::Mult => p2.poly_value_at_r[1] += off * (v[0] * fu).inverse()?,
                Fix::Add => p2.poly_value_at_r[2] += off * (v[0] + fu).inverse()?,
            }
        }
        if d > 1 {
            gu = ru;
            gv = rv;
            ru_claim = fu;
            rv_claim = p2.poly_value_at_r[0];
            alpha = draw(t);
            beta = draw(t);
        }
        proofs.push(LayerProof { proof_phase_one: p1, proof_phase_two: p2 });
    }
    Some((out, enc(&LinearGKRProof { proofs })))
}
pub fn provers(ctx: &Ctx, cs: &[LCase<F>]) {
    let mut jobs: Vec<(usize, Lie)> = vec![];
    for (k, c) in cs.iter().enumerate() {
        jobs.push((k, Lie::Nothing));
        let n = c.c.layers.len();
        for i in 0..c.c.layers[n - 1].len() {
            jobs.push((k, Lie::Output(i)));
        }
        for d in 0..n {
            let w = if d == 0 { 2 * c.c.half() } else { c.c.layers[d - 1].len() };
            for i in 0..w {
                jobs.push((k, Lie::Split(d, false, i)));
                jobs.push((k, Lie::Split(d, true, i)));
            }
        }
    }
    par_for(&jobs, |_, (k, lie)| {
        let c = &cs[*k];
        let base = c.c.base(&c.aux[0], &c.inputs[0]);
        let truth = c.c.over(&base);
        let n = c.c.layers.len();
        // forward the difference through j layers, then end it one of the ways
        let mut plans: Vec<Vec<Fix>> = vec![];
        for j in 0..=n {
            for f in [Fix::Nothing, Fix::Mult, Fix::Add] {
                let mut v = vec![Fix::Value; j];
                v.push(f);
                plans.push(v);
            }
        }
        for plan in plans {
            for seed in 1..=2u64 {
                let made = match scripted(fixed(seed, None), || guard(|| run(&c.c, &base, lie, &plan))) {
                    Ok(Some(x)) => x,
                    _ => {
                        ctx.count("plans without a proof", 1);
                        continue;
                    }
                };
                let st = Stmt { outputs: vec![made.0.clone()], inputs: vec![base.clone()] };
                let v = scripted(fixed(seed, None), || Plain.verify(&c.c, &made.1, &st));
                ctx.step(1);
                ctx.trace(1);
                if made.0 == truth {
                    if *lie == Lie::Nothing {
                        ctx.count(if v.acc() { "interactive honest prover accepted" } else { "interactive honest prover rejected" }, 1);
                    }
                    continue;
                }
                ctx.state(&(*k, format!("{:?}{:?}", lie, plan), seed));
                ctx.check(!v.acc(), "false-output-proved", || format!("{}: outputs {} for {} (lie {:?}, differences absorbed by {:?}) accepted", c.show(), vs(&made.0), vs(&truth), lie, plan));
            }
        }
    });
    ctx.bound(format!(
        "interactive provers of false outputs on {} circuits: each output off by one, each operand of each layer differing between left and right uses; the difference carried through any number of layers and absorbed by the second operand's value, the claimed product or sum indicator, or nothing",
        cs.len()
    ));
}
