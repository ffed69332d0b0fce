//! Interactive provers of false statements for the SNARK: the witness argument is run on matrices
//! that the false assignment satisfies, and the evaluations of the real, committed matrices are
//! falsified to match, with all but one family of the verifier's equations satisfied.
use ark_ff::{Field, One, Zero};
use mccore::*;
use mcfs::fixed;
use merlin::mc::scripted;
use merlin::Transcript;
use zkp_r1cs::Index;
use zkp_spartan::commitments::packing_poly_commit;
use zkp_spartan::data_structure::{random_bytes_to_fr, ProductCircuit, ProductLayerProof, R1CSEvalsProof, SNARKProof};
use zkp_spartan::polynomial::{eval_eq, evaluate_mle};
use zkp_spartan::prover::{hash_layer_prover, product_circuit_eval_prover, r1cs_satisfied_prover};
use zkp_spartan::spark::{circuit_hash, construct_product_circuit, equalize_length, evaluate_product_circuit};

use crate::{SKey, Snark, E, F};

/// where the false evaluation comes from
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Lie {
    /// an honest run
    Nothing,
    /// the value read from the row (column) memory at one position
    Row(usize),
    Col(usize),
    /// one value of the matrix
    Val(usize),
    /// the sum of one half of the positions
    Sum(bool),
    /// only the evaluation itself
    Eval,
}
/// what absorbs the inconsistency of the memory
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Absorb {
    Nothing,
    /// the product claimed for the k-th of: init, three reads, three writes, audit
    Claim(usize),
    /// a leaf of that product
    Leaf(usize),
}
struct Mem {
    prods: Vec<ProductCircuit<E>>,
    claims: Vec<F>,
}
fn memory(addrs: &[Vec<F>], mem: &[F], ts: &[Vec<F>], audit: &[F], e: &[Vec<F>], g: (F, F), how: Absorb) -> Option<Mem> {
    let at: Vec<F> = (0..mem.len()).map(|i| F::from(i as u64)).collect();
    let hash = |a: &[F], v: &[F], t: &[F]| -> Vec<F> { circuit_hash::<E>(&a.to_vec(), &v.to_vec(), &t.to_vec(), g.0).unwrap().iter().map(|h| *h - g.1).collect() };
    let mut lists = vec![hash(&at, mem, &vec![F::zero(); mem.len()])];
    for k in 0..3 {
        lists.push(hash(&addrs[k], &e[k], &ts[k]));
    }
    for k in 0..3 {
        let w: Vec<F> = ts[k].iter().map(|t| *t + F::one()).collect();
        lists.push(hash(&addrs[k], &e[k], &w));
    }
    lists.push(hash(&at, mem, audit));
    let p: Vec<F> = lists.iter().map(|l| l.iter().product()).collect();
    // init * writes = reads * audit
    let (lhs, rhs): (F, F) = (p[0] * p[4] * p[5] * p[6], p[1] * p[2] * p[3] * p[7]);
    let ratio = |k: usize| if k == 0 || (4..7).contains(&k) { lhs.inverse().map(|i| rhs * i) } else { rhs.inverse().map(|i| lhs * i) };
    if let Absorb::Leaf(k) = how {
        lists[k][0] *= ratio(k)?;
    }
    let prods: Vec<ProductCircuit<E>> = lists.into_iter().map(|l| construct_product_circuit::<E>(l).unwrap()).collect();
    let mut claims: Vec<F> = prods.iter().map(|p| evaluate_product_circuit::<E>(p).unwrap()).collect();
    if let Absorb::Claim(k) = how {
        claims[k] *= ratio(k)?;
    }
    Some(Mem { prods, claims })
}
/// One run for the assignment (p, a) of `c`, which falsifies it (except for `Lie::Nothing`).
pub fn run(k: &SKey, c: &Case<F>, p: &[F], a: &[F], lie: Lie, how: Absorb) -> Option<SNARKProof<E>> {
    let pk = &k.pk;
    let rng = &mut Coins::seeded(78);
    let mut tr = Transcript::new(b"cheat");
    let tr = &mut tr;
    // matrices this assignment satisfies
    let mut r = pk.r1cs.clone();
    let z = Rel::z(p, a);
    let value = |l: &[(usize, i64)]| -> F { l.iter().map(|(v, k)| z[*v] * fi::<F>(*k)).sum() };
    for (i, con) in c.rel.cons.iter().enumerate() {
        let d = value(&con[0]) * value(&con[1]) - value(&con[2]);
        if !d.is_zero() {
            r.c_matrix[i].push((d, Index::Input(0)));
        }
    }
    let (sat, (rx, ry)) = r1cs_satisfied_prover::<E, _, _>(&pk.params.r1cs_satisfied_params, &r, c.inst_with(p, a), rng, tr).ok()?;
    let evals: Vec<F> = [&r.a_matrix, &r.b_matrix, &r.c_matrix].iter().map(|m| evaluate_mle::<E>(m, &rx, &ry)).collect();
    let off = evals[2] - evaluate_mle::<E>(&pk.r1cs.c_matrix, &rx, &ry);
    // the evaluation argument
    let enc = &pk.encode;
    let (rows, cols) = equalize_length::<E>(&rx, &ry).ok()?;
    let (mr, mc) = (eval_eq::<E>(&rows), eval_eq::<E>(&cols));
    let look = |ix: &Vec<Vec<usize>>, m: &[F]| -> Vec<Vec<F>> { ix.iter().map(|l| l.iter().map(|i| m[*i]).collect()).collect() };
    let (mut er, mut ec) = (look(&enc.row_addr_ts.addr_index, &mr), look(&enc.col_addr_ts.addr_index, &mc));
    let mut val = enc.val_list.clone();
    match lie {
        Lie::Row(i) => {
            let d = off * (*val[2].get(i)? * ec[2][i]).inverse()?;
            er[2][i] += d
        }
        Lie::Col(i) => {
            let d = off * (*val[2].get(i)? * er[2][i]).inverse()?;
            ec[2][i] += d
        }
        Lie::Val(i) => {
            let d = off * (*er[2].get(i)? * ec[2][i]).inverse()?;
            val[2][i] += d
        }
        _ => (),
    }
    let mut list: Vec<F> = er.iter().chain(ec.iter()).flatten().cloned().collect();
    list.resize(list.len().next_power_of_two(), F::zero());
    let ep = &pk.params.r1cs_eval_params;
    let (derefs_commit, _) = packing_poly_commit::<E, _>(&ep.derefs_params.gen_n.generators, &list, &ep.derefs_params.gen_n.h, rng, false).ok()?;
    let mut draw = || {
        let mut buf = [0u8; 31];
        tr.challenge_bytes(b"c", &mut buf);
        random_bytes_to_fr::<E>(&buf)
    };
    let g = (draw(), draw());
    let (hr, hc) = match lie {
        Lie::Row(_) => (how, Absorb::Nothing),
        Lie::Col(_) => (Absorb::Nothing, how),
        _ => (Absorb::Nothing, Absorb::Nothing),
    };
    let (t, u) = (&enc.row_addr_ts, &enc.col_addr_ts);
    let row = memory(&t.addrs, &mr, &t.read_ts_list, &t.audit_ts, &er, g, hr)?;
    let col = memory(&u.addrs, &mc, &u.read_ts_list, &u.audit_ts, &ec, g, hc)?;
    let (mut left, mut right) = (vec![], vec![]);
    let mut dots = vec![];
    for k in 0..3 {
        let h = er[k].len() / 2;
        for s in [0..h, h..2 * h] {
            let mut v: F = s.clone().map(|i| er[k][i] * ec[k][i] * val[k][i]).sum();
            if k == 2 && lie == Lie::Sum(s.start > 0) {
                v += off;
            }
            if s.start == 0 { left.push(v) } else { right.push(v) }
            dots.push((er[k][s.clone()].to_vec(), ec[k][s.clone()].to_vec(), val[k][s].to_vec()));
        }
    }
    let eval = |m: &Mem| (m.claims[0], m.claims[1..4].to_vec(), m.claims[4..7].to_vec(), m.claims[7]);
    let (eval_row, eval_col) = (eval(&row), eval(&col));
    let mut ops: Vec<ProductCircuit<E>> = row.prods[1..7].iter().chain(&col.prods[1..7]).cloned().collect();
    let mut mem: Vec<ProductCircuit<E>> = vec![row.prods[0].clone(), row.prods[7].clone(), col.prods[0].clone(), col.prods[7].clone()];
    let (proof_ops, ro) = product_circuit_eval_prover::<E>(&mut ops.iter_mut().collect(), &mut dots.iter_mut().collect(), tr).ok()?;
    let (proof_memory, rm) = product_circuit_eval_prover::<E>(&mut mem.iter_mut().collect(), &mut vec![], tr).ok()?;
    let hash_layer_proof = hash_layer_prover::<E, _>(ep, enc, (&ro, &rm), (&er, &ec, &list), rng, tr).ok()?;
    Some(SNARKProof {
        r1cs_satisfied_proof: sat,
        matrix_evals: (evals[0], evals[1], evals[2]),
        r1cs_evals_proof: R1CSEvalsProof { prod_layer_proof: ProductLayerProof { proof_memory, proof_ops, eval_dotp: (left, right), eval_row, eval_col }, hash_layer_proof, derefs_commit },
    })
}
pub fn provers(ctx: &Ctx, cs: &[Case<F>]) {
    par_for(cs, |_, c| {
        let k = match Snark.setup(c, 4) {
            Ok(k) => k,
            Err(_) => {
                ctx.count("setup refused", 1);
                return;
            }
        };
        let go = |p: &[F], a: &[F], lie: Lie, how: Absorb| -> Option<Verdict> {
            let pr = match scripted(fixed(1, None), || guard(|| run(&k, c, p, a, lie, how))) {
                Ok(Some(x)) => x,
                _ => {
                    ctx.count("plans without a proof", 1);
                    return None;
                }
            };
            ctx.step(1);
            ctx.trace(1);
            Some(scripted(fixed(1, None), || Snark.verify(&k, &pr, p)))
        };
        match go(&c.public, &c.aux, Lie::Nothing, Absorb::Nothing) {
            Some(v) if v.acc() => ctx.count("interactive honest prover accepted", 1),
            _ => ctx.count("interactive honest prover rejected", 1),
        }
        let n = k.pk.encode.val_list[2].len();
        let mut lies = vec![Lie::Sum(false), Lie::Sum(true), Lie::Eval];
        for i in 0..n {
            lies.extend([Lie::Row(i), Lie::Col(i), Lie::Val(i)]);
        }
        let mut hows = vec![Absorb::Nothing];
        for s in 0..8 {
            hows.extend([Absorb::Claim(s), Absorb::Leaf(s)]);
        }
        // every single value of the statement and witness off by one
        for j in 0..c.public.len() + c.aux.len() {
            let (mut p, mut a) = (c.public.clone(), c.aux.clone());
            if j < p.len() {
                p[j] += F::one()
            } else {
                a[j - c.public.len()] += F::one()
            }
            if c.sat_with(&p, &a) {
                continue;
            }
            for lie in &lies {
                for how in &hows {
                    if *how != Absorb::Nothing && !matches!(lie, Lie::Row(_) | Lie::Col(_)) {
                        continue;
                    }
                    if let Some(v) = go(&p, &a, *lie, *how) {
                        ctx.state(&(c.name.as_str(), j, format!("{:?}{:?}", lie, how)));
                        ctx.check(!v.acc(), "false-evaluation-proved", || format!("{}: unsatisfying assignment p={} w={} accepted (matrix evaluation falsified through {:?}, memory absorbed by {:?})", c.show(), vs(&p), vs(&a), lie, how));
                    }
                }
            }
        }
    });
    ctx.bound(format!(
        "interactive provers on {} relations: every single value of the assignment off by one, the evaluation of the matrix falsified through every value read from either memory, every matrix value, either half sum or nothing; the memory's inconsistency absorbed by any of 16 product claims or a leaf of any of 16 products",
        cs.len()
    ));
}
