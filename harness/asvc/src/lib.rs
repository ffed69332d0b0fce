//! A01/A02: aggregatable vector commitments on the transparent toy engine.
use ark_ff::{Field, One, PrimeField, Zero};
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain};
use ark_ec::PairingEngine;
use mccore::toy::*;
use mccore::*;
use std::collections::{HashMap, VecDeque};
use zkp_asvc::*;

pub const TOY: &str = "toy pairing engine: group elements are their discrete logarithms, so equations between group elements are decided exactly";

/// engines whose discrete logs are visible
pub trait Toy: PairingEngine {
    fn d1(x: &Self::G1Affine) -> Self::Fr;
    fn d2(x: &Self::G2Affine) -> Self::Fr;
    fn g1(x: Self::Fr) -> Self::G1Affine;
}
macro_rules! toy {
    ($e:ty, $c:ty) => {
        impl Toy for $e {
            fn d1(x: &Self::G1Affine) -> Self::Fr { x.0 }
            fn d2(x: &Self::G2Affine) -> Self::Fr { x.0 }
            fn g1(x: Self::Fr) -> Self::G1Affine { A::of(x) }
        }
    };
}
toy!(E17, Cfg17);
toy!(E97, Cfg97);
toy!(E257, Cfg257);
toy!(EBig, CfgBig);

pub fn omega<F: PrimeField>(n: usize) -> F {
    match GeneralEvaluationDomain::<F>::new(n).unwrap() {
        GeneralEvaluationDomain::Radix2(r) => r.group_gen,
        GeneralEvaluationDomain::MixedRadix(m) => m.group_gen,
    }
}
/// reference polynomial arithmetic (schoolbook, little endian)
pub fn horner<F: Field>(p: &[F], x: F) -> F {
    p.iter().rev().fold(F::zero(), |a, c| a * x + c)
}
pub fn lagrange<F: Field>(xs: &[F], ys: &[F]) -> Vec<F> {
    let mut out = vec![F::zero(); xs.len().max(1)];
    for i in 0..xs.len() {
        let mut num = vec![F::one()];
        let mut den = F::one();
        for j in 0..xs.len() {
            if i != j {
                let mut nx = vec![F::zero(); num.len() + 1];
                for (k, c) in num.iter().enumerate() {
                    nx[k + 1] += c;
                    nx[k] -= &(*c * xs[j]);
                }
                num = nx;
                den *= xs[i] - xs[j];
            }
        }
        let s = ys[i] / den;
        for (k, c) in num.iter().enumerate() {
            out[k] += *c * s;
        }
    }
    out
}

pub struct World<E: PairingEngine> {
    n: usize,
    p: Parameters<E>,
    tau: E::Fr,
    g1: E::Fr,
    om: E::Fr,
    xs: Vec<E::Fr>,
    tag: String,
}
/// key generation with a seed whose secrets are not degenerate (probability ~ n/|F| in toy fields)
pub fn worlds<E: Toy>(ctx: &Ctx, n: usize, how_many: usize, tag: &str) -> Vec<World<E>> {
    let mut v = vec![];
    for seed in 1..400u64 {
        if v.len() == how_many {
            break;
        }
        // the draws key_gen makes, in whichever order it uses them
        let mut c = Coins::seeded(seed);
        let draws: Vec<E::Fr> = (0..3).map(|_| ark_ff::UniformRand::rand(&mut c)).collect();
        let size = n.next_power_of_two() as u64;
        let p = match flat(guard(|| key_gen::<E, _>(n, &mut Coins::seeded(seed)))) {
            Ok(p) => p,
            Err(e) => {
                if !draws.iter().any(|d| d.is_zero() || d.pow(&[size]).is_one()) {
                    ctx.violate("key-gen-fails", || format!("{} n={} seed {}: {}", tag, n, seed, e));
                }
                continue;
            }
        };
        let pw = &p.proving_key.powers_of_g1;
        let g1 = E::d1(&pw[0]);
        let h2 = E::d2(&p.verification_key.powers_of_g2[0]);
        if g1.is_zero() || h2.is_zero() {
            continue;
        }
        let tau = E::d1(&pw[1]) / g1;
        if tau.is_zero() || tau.pow(&[size]).is_one() {
            continue;
        }
        let m = n.next_power_of_two();
        let om = omega::<E::Fr>(m);
        let xs = (0..m).map(|i| om.pow(&[i as u64])).collect();
        v.push(World { n: m, p, tau, g1, om, xs, tag: format!("{} n={} seed={}", tag, n, seed) });
    }
    assert_eq!(v.len(), how_many);
    v
}
impl<E: Toy> World<E> {
    fn padded(&self, v: &[E::Fr]) -> Vec<E::Fr> {
        let mut v = v.to_vec();
        v.resize(self.n, E::Fr::zero());
        v
    }
    /// what the commitment of a vector has to be
    fn ref_commit(&self, v: &[E::Fr]) -> E::Fr {
        self.g1 * horner(&lagrange(&self.xs, &self.padded(v)), self.tau)
    }
    fn ref_proof(&self, v: &[E::Fr], pts: &[u32]) -> E::Fr {
        let xs: Vec<E::Fr> = pts.iter().map(|p| self.xs[*p as usize]).collect();
        let ys: Vec<E::Fr> = pts.iter().map(|p| self.padded(v)[*p as usize]).collect();
        let a = xs.iter().fold(E::Fr::one(), |a, x| a * (self.tau - x));
        (self.ref_commit(v) - self.g1 * horner(&lagrange(&xs, &ys), self.tau)) / a
    }
    fn verify(&self, c: &Commitment<E>, vals: &[E::Fr], pts: &[u32], w: &Proof<E>) -> Verdict {
        Verdict::of(guard(|| verify_pos(&self.p.verification_key, c, vals.to_vec(), pts.to_vec(), w, self.om)))
    }
    fn upk_ok(&self, pt: u32, u: &UpdateKey<E>) -> Verdict {
        Verdict::of(guard(|| verify_upk(&self.p.verification_key, pt, u, self.om)))
    }
    fn vals(&self, v: &[E::Fr], pts: &[u32]) -> Vec<E::Fr> {
        pts.iter().map(|p| self.padded(v)[*p as usize]).collect()
    }
}
pub fn subsets(n: usize) -> Vec<Vec<u32>> {
    (1..1usize << n).map(|m| (0..n as u32).filter(|i| m >> i & 1 == 1).collect()).collect()
}

/// commitment, single proofs of all positions
#[derive(Clone)]
pub struct State<E: PairingEngine> {
    v: Vec<E::Fr>,
    c: Commitment<E>,
    w: Vec<Proof<E>>,
    depth: usize,
    path: Vec<(u32, i64)>,
}
pub fn key_of<F: PrimeField>(v: &[F]) -> Vec<u64> {
    v.iter().map(|x| x.into_repr().as_ref()[0]).collect()
}
/// state-graph search: vertices are vectors, edges the real update operations.  Whatever path
/// reaches a vector, the maintained commitment and proofs equal those computed afresh.
pub fn histories<E: Toy>(ctx: &Ctx, wd: &World<E>, init: &[E::Fr], deltas: &[i64], depth: usize, aggregate: bool) {
    let at = |s: &State<E>| format!("{} from {:?}, updates {:?}", wd.tag, key_of(init), s.path);
    let c = match flat(guard(|| commit(&wd.p.proving_key, init.to_vec()))) {
        Ok(c) => c,
        Err(e) => return ctx.violate("commit-fails", || format!("{} {:?}: {}", wd.tag, key_of(init), e)),
    };
    let mut w = vec![];
    for i in 0..wd.n as u32 {
        match flat(guard(|| prove_pos(&wd.p.proving_key, init.to_vec(), vec![i]))) {
            Ok(p) => w.push(p),
            Err(e) => return ctx.violate("prove-fails", || format!("{} {:?} at {}: {}", wd.tag, key_of(init), i, e)),
        }
    }
    let init_s = State { v: wd.padded(init), c, w, depth: 0, path: vec![] };
    let mut seen: HashMap<Vec<u64>, ()> = HashMap::new();
    let mut q = VecDeque::new();
    seen.insert(key_of(&init_s.v), ());
    q.push_back(init_s);
    let subs = subsets(wd.n.min(8));
    while let Some(s) = q.pop_front() {
        ctx.state(&(&wd.tag, key_of(&s.v)));
        inspect(ctx, wd, &s, &at(&s), aggregate, &subs);
        if s.depth == depth {
            continue;
        }
        for i in 0..wd.n as u32 {
            for &d in deltas {
                let dl = fi::<E::Fr>(d);
                ctx.step(1);
                let upk = &wd.p.proving_key.update_keys;
                let mut v = s.v.clone();
                v[i as usize] += dl;
                let mut path = s.path.clone();
                path.push((i, d));
                let r = flat(guard(|| -> Result<State<E>, zkp_r1cs::SynthesisError> {
                    let c = update_commit(&s.c, dl, i, &upk[i as usize], wd.om, wd.n)?;
                    let mut w = vec![];
                    for j in 0..wd.n as u32 {
                        w.push(update_proof(&s.w[j as usize], dl, j, i, &upk[j as usize], &upk[i as usize], wd.om, wd.n)?);
                    }
                    Ok(State { v, c, w, depth: s.depth + 1, path: path.clone() })
                }));
                match r {
                    Err(e) => ctx.violate("update-fails", || format!("{} {:?}: {}", wd.tag, path, e)),
                    Ok(t) => {
                        if seen.insert(key_of(&t.v), ()).is_none() {
                            q.push_back(t);
                        } else {
                            // reached along another path: same vertex, same maintained data
                            same(ctx, wd, &t, &at(&t));
                        }
                    }
                }
            }
        }
    }
}
pub fn same<E: Toy>(ctx: &Ctx, wd: &World<E>, s: &State<E>, at: &str) {
    ctx.trace(1);
    let want = wd.ref_commit(&s.v);
    ctx.check(E::d1(&s.c.commit) == want, "updated-commitment", || format!("{}: commitment is not that of {:?}", at, key_of(&s.v)));
    for i in 0..wd.n as u32 {
        let want = wd.ref_proof(&s.v, &[i]);
        ctx.check(E::d1(&s.w[i as usize].w) == want, "updated-proof", || format!("{}: proof of position {} is not that of {:?}", at, i, key_of(&s.v)));
    }
}
pub fn inspect<E: Toy>(ctx: &Ctx, wd: &World<E>, s: &State<E>, at: &str, aggregate: bool, subs: &[Vec<u32>]) {
    same(ctx, wd, s, at);
    for i in 0..wd.n as u32 {
        let v = wd.verify(&s.c, &[s.v[i as usize]], &[i], &s.w[i as usize]);
        ctx.check(v == Verdict::Accept, "position-proof-rejected", || format!("{} position {}: {:?}", at, i, v));
    }
    if !aggregate {
        return;
    }
    for pts in subs {
        for rev in [false, true] {
            let mut pts = pts.clone();
            if rev {
                if pts.len() < 2 {
                    continue;
                }
                pts.reverse();
            }
            let r = flat(guard(|| prove_pos(&wd.p.proving_key, s.v.clone(), pts.clone())));
            let ag = flat(guard(|| aggregate_proofs(pts.clone(), pts.iter().map(|i| s.w[*i as usize].clone()).collect(), wd.om)));
            for (what, r) in [("subset", r), ("aggregated", ag)] {
                ctx.step(1);
                match r {
                    Err(e) => ctx.violate(&format!("{}-fails", what), || format!("{} positions {:?}: {}", at, pts, e)),
                    Ok(p) => {
                        ctx.check(E::d1(&p.w) == wd.ref_proof(&s.v, &pts), &format!("{}-proof", what), || format!("{} positions {:?}: not the quotient", at, pts));
                        let v = wd.verify(&s.c, &wd.vals(&s.v, &pts), &pts, &p);
                        ctx.check(v == Verdict::Accept, &format!("{}-proof-rejected", what), || format!("{} positions {:?}: {:?}", at, pts, v));
                    }
                }
            }
        }
    }
}
pub fn keys<E: Toy>(ctx: &Ctx, wd: &World<E>) {
    let m = wd.n;
    let pk = &wd.p.proving_key;
    ctx.check(pk.update_keys.len() == m && pk.l_of_g1.len() == m, "key-size", || format!("{}: {} update keys, {} bases", wd.tag, pk.update_keys.len(), pk.l_of_g1.len()));
    for i in 0..m {
        let v = wd.upk_ok(i as u32, &pk.update_keys[i]);
        ctx.step(1);
        ctx.check(v == Verdict::Accept, "update-key-rejected", || format!("{} position {}: {:?}", wd.tag, i, v));
        let mut e = vec![E::Fr::zero(); m];
        e[i] = E::Fr::one();
        ctx.check(E::d1(&pk.l_of_g1[i]) == wd.ref_commit(&e), "base", || format!("{}: base {} is not its Lagrange polynomial", wd.tag, i));
    }
}
pub fn vectors<F: PrimeField>(n: usize, alphabet: &[i64]) -> Vec<Vec<F>> {
    tuples(alphabet, n).into_iter().map(|t| t.into_iter().map(fi::<F>).collect()).collect()
}
pub fn a01_field<E: Toy>(ctx: &Ctx, tag: &str, sizes: &[(usize, &[i64], usize)], inits: usize) {
    let mut jobs = vec![];
    for &(n, deltas, depth) in sizes {
        for w in worlds::<E>(ctx, n, 2, tag) {
            jobs.push((n, deltas.to_vec(), depth, w));
        }
    }
    struct S<T>(T);
    unsafe impl<T> Sync for S<T> {}
    let jobs = S(jobs);
    let idx: Vec<usize> = (0..jobs.0.len()).collect();
    let jr = &jobs;
    par_for(&idx, |_, i| {
        let (n, deltas, depth, w) = &jr.0[*i];
        keys(ctx, w);
        // vectors of every length up to the domain size: the rest counts as zero
        for len in 1..=w.n {
            let mut starts: Vec<Vec<E::Fr>> = vec![
                vec![E::Fr::zero(); len],
                (0..len).map(|k| fi::<E::Fr>(k as i64 + 2)).collect(),
            ];
            if inits > 2 {
                starts.push((0..len).map(|k| fi::<E::Fr>(if k + 1 == len { 3 } else { 0 })).collect());
                starts.push(vec![fi::<E::Fr>(-1); len]);
            }
            for s in &starts {
                let full = len == w.n || len == *n;
                histories(ctx, w, s, if full { deltas } else { &[1] }, if full { *depth } else { 1 }, w.n <= 8);
            }
        }
    });
}
pub fn a01(ctx: &Ctx) {
    ctx.assume(TOY);
    ctx.assume("the caller passes the evaluation domain's generator and size, as the API demands");
    let t = ctx.thorough();
    // F_17: closed state graphs for n <= 2 (every vector), bounded depth above
    let all: Vec<i64> = (1..17).collect();
    let all: &'static [i64] = Box::leak(all.into_boxed_slice());
    a01_field::<E17>(ctx, "F17", &[(1, all, 17), (2, all, 17), (3, &[1, -1, 5], if t { 4 } else { 2 }), (4, &[1, -1, 0], if t { 4 } else { 2 }), (8, &[1, 3], if t { 3 } else { 1 })], 2);
    a01_field::<E257>(ctx, "F257", &[(2, &[1, 0, -3], 6), (4, &[1, 2], if t { 6 } else { 3 }), (5, &[1], 2), (8, &[1, -2], 2), (16, &[1], 1)], if t { 4 } else { 2 });
    a01_field::<EBig>(ctx, "Fbig", &[(1, &[1, -1, 7], 3), (2, &[0, 1, -1], 4), (3, &[1, -1], 2), (4, &[1, -1], if t { 5 } else { 3 }), (6, &[4], 2), (8, &[1, -1], if t { 3 } else { 2 }), (16, &[2], if t { 2 } else { 1 }), (32, &[1], 1)], if t { 4 } else { 2 });
    ctx.bound("every vector over F_17 of length 1 and 2 and every update between them (closed state graph); bounded update depth for lengths 3..32 over three fields; every subset of positions in both orders for n <= 8");
    // large: one update each
    for n in ctx.b(vec![33, 64, 100], vec![33, 64, 100, 128, 255, 256, 512]) {
        for w in worlds::<EBig>(ctx, n, 1, "Fbig") {
            keys(ctx, &w);
            let v: Vec<_> = (0..n).map(|k| fi::<FrOf<CfgBig>>((k * k) as i64 - 5)).collect();
            let idx: Vec<usize> = (0..w.n).collect();
            struct S<T>(T);
            unsafe impl<T> Sync for S<T> {}
            let sw = S(&w);
            let sr = &sw;
            let c = commit(&w.p.proving_key, v.clone()).unwrap();
            let c = S(c);
            let cr = &c;
            par_for(&idx, |_, &i| {
                let (w, c) = (sr.0, &cr.0);
                let i = i as u32;
                let j = (i * 7 + 3) % w.n as u32;
                let uk = &w.p.proving_key.update_keys;
                let dl = fi::<FrOf<CfgBig>>(11);
                let mut v2 = w.padded(&v);
                v2[j as usize] += dl;
                ctx.step(1);
                ctx.trace(1);
                let r = flat(guard(|| -> Result<_, zkp_r1cs::SynthesisError> {
                    let p = prove_pos(&w.p.proving_key, v.clone(), vec![i, j].into_iter().take(if i == j { 1 } else { 2 }).collect())?;
                    let p1 = prove_pos(&w.p.proving_key, v.clone(), vec![i])?;
                    let c2 = update_commit(c, dl, j, &uk[j as usize], w.om, w.n)?;
                    let p2 = update_proof(&p1, dl, i, j, &uk[i as usize], &uk[j as usize], w.om, w.n)?;
                    Ok((p, c2, p2))
                }));
                match r {
                    Err(e) => ctx.violate("update-fails", || format!("{} {} {}: {}", w.tag, i, j, e)),
                    Ok((p, c2, p2)) => {
                        let pts: Vec<u32> = if i == j { vec![i] } else { vec![i, j] };
                        ctx.check(w.verify(c, &w.vals(&v, &pts), &pts, &p) == Verdict::Accept, "subset-proof-rejected", || format!("{} {:?}", w.tag, pts));
                        ctx.check(c2.commit.0 == w.ref_commit(&v2) || w.n > 128, "updated-commitment", || format!("{} {} {}", w.tag, i, j));
                        ctx.check(w.verify(&c2, &w.vals(&v2, &[i]), &[i], &p2) == Verdict::Accept, "position-proof-rejected", || format!("{} {} {}", w.tag, i, j));
                    }
                }
            });
        }
    }
    ctx.bound(format!("lengths up to {}, every position updated once", ctx.b(128, 512)));
}

// ------------------------------------------------------------------------------------- A02

/// every accepted (positions, values, proof) has to be true of the committed vector
pub fn a02_case<E: Toy>(ctx: &Ctx, wd: &World<E>, v: &[E::Fr], alter: &[i64], pts_list: &[Vec<u32>]) {
    let pk = &wd.p.proving_key;
    let c = commit(pk, v.to_vec()).unwrap();
    let full = wd.padded(v);
    let claim = |ctx: &Ctx, key: &str, c: &Commitment<E>, vals: &[E::Fr], pts: &[u32], w: &Proof<E>| {
        ctx.step(1);
        match wd.verify(c, vals, pts, w) {
            Verdict::Reject(_) => ctx.count("rejected", 1),
            Verdict::Accept => ctx.violate(key, || format!("{} vector {:?}: accepted values {:?} at {:?}", wd.tag, key_of(v), key_of(vals), pts)),
            Verdict::Crash(e) => ctx.violate(&format!("{}-crash", key), || format!("{} values {:?} at {:?}: {}", wd.tag, key_of(vals), pts, e)),
        }
    };
    let single: Vec<Proof<E>> = (0..wd.n as u32).map(|i| prove_pos(pk, v.to_vec(), vec![i]).unwrap()).collect();
    for pts in pts_list {
        let vals = wd.vals(v, pts);
        let honest = prove_pos(pk, v.to_vec(), pts.clone()).unwrap();
        let agg = aggregate_proofs::<E>(pts.clone(), pts.iter().map(|i| single[*i as usize].clone()).collect(), wd.om).unwrap();
        ctx.trace(1);
        for (what, w) in [("subset", &honest), ("aggregated", &agg)] {
            if wd.verify(&c, &vals, pts, w) != Verdict::Accept {
                ctx.count("not-accepted", 1);
                continue; // completeness is A01's business
            }
            ctx.state(&(&wd.tag, key_of(v), pts, what));
            // other values: one or two positions changed, or values permuted
            for k in 0..pts.len() {
                for &d in alter {
                    let mut x = vals.clone();
                    x[k] += fi::<E::Fr>(d);
                    claim(ctx, "wrong-value", &c, &x, pts, w);
                    for l in 0..k {
                        let mut y = x.clone();
                        y[l] -= fi::<E::Fr>(d);
                        claim(ctx, "wrong-values", &c, &y, pts, w);
                    }
                }
                for l in 0..k {
                    if vals[k] != vals[l] {
                        let mut y = vals.clone();
                        y.swap(k, l);
                        claim(ctx, "swapped-values", &c, &y, pts, w);
                    }
                }
                // another position for the same value; its value differs
                for o in 0..wd.n as u32 {
                    if !pts.contains(&o) && full[o as usize] != vals[k] {
                        let mut q = pts.clone();
                        q[k] = o;
                        claim(ctx, "wrong-position", &c, &vals, &q, w);
                    }
                }
                // numbers of values and positions differ
                let mut x = vals.clone();
                x.remove(k);
                claim(ctx, "missing-value", &c, &x, pts, w);
                let mut q = pts.clone();
                q.remove(k);
                claim(ctx, "missing-position", &c, &vals, &q, w);
                // the same position twice
                let mut q = pts.clone();
                let mut x = vals.clone();
                q.push(pts[k]);
                x.push(vals[k] + E::Fr::one());
                claim(ctx, "repeated-position", &c, &x, &q, w);
                // a position outside the vector
                for off in [wd.n as u32, 2 * wd.n as u32] {
                    let mut q = pts.clone();
                    q[k] += off;
                    claim(ctx, "position-outside", &c, &vals, &q, w);
                }
            }
            for extra in alter.iter().map(|d| fi::<E::Fr>(*d)).chain(Some(E::Fr::zero())) {
                let mut x = vals.clone();
                x.push(extra);
                claim(ctx, "extra-value", &c, &x, pts, w);
            }
            for o in 0..wd.n as u32 {
                if !pts.contains(&o) {
                    let mut q = pts.clone();
                    q.push(o);
                    claim(ctx, "extra-position", &c, &vals, &q, w);
                }
            }
            // other commitments, altered proofs
            for &d in alter {
                let b = Proof { w: E::g1(E::d1(&w.w) + fi::<E::Fr>(d)) };
                claim(ctx, "altered-proof", &c, &vals, pts, &b);
                let b = Commitment { commit: E::g1(E::d1(&c.commit) + fi::<E::Fr>(d) * wd.g1) };
                claim(ctx, "other-commitment", &b, &vals, pts, w);
                for j in 0..wd.n {
                    let mut v2 = full.clone();
                    v2[j] += fi::<E::Fr>(d);
                    let b = commit(pk, v2).unwrap();
                    claim(ctx, "other-vector", &b, &vals, pts, w);
                }
            }
        }
    }
    // no position at all: nothing may be claimed
    for vals in [vec![], vec![full[0]], vec![full[0] + E::Fr::one()]] {
        for w in single.iter().map(|p| p.w).chain(Some(c.commit)) {
            let w = Proof { w };
            if !vals.is_empty() {
                claim(ctx, "values-without-positions", &c, &vals, &[], &w);
            }
        }
    }
    // honest proofs transplanted between positions
    for i in 0..wd.n as u32 {
        for j in 0..wd.n as u32 {
            if i != j && E::d1(&single[i as usize].w) != E::d1(&single[j as usize].w) {
                claim(ctx, "transplanted-proof", &c, &[full[i as usize]], &[i], &single[j as usize]);
            }
        }
    }
}
/// generic-group prover: proofs are small linear combinations of everything published
pub fn a02_span(ctx: &Ctx, n: usize, coefs: &[i64]) {
    type E = EBig;
    type F = FrOf<CfgBig>;
    let wd = worlds::<E>(ctx, n, 1, "Fbig").pop().unwrap();
    let v: Vec<F> = (0..n).map(|k| fi::<F>(3 * k as i64 + 1)).collect();
    let pk = &wd.p.proving_key;
    let c = commit(pk, v.clone()).unwrap();
    let mut basis: Vec<F> = pk.powers_of_g1.iter().chain(&pk.l_of_g1).map(|x| x.0).collect();
    for u in &pk.update_keys {
        basis.push(u.ai.0);
        basis.push(u.ui.0);
    }
    for i in 0..n as u32 {
        basis.push(prove_pos(pk, v.clone(), vec![i]).unwrap().w.0);
    }
    basis.push(c.commit.0);
    // at most two terms
    let mut ws = vec![F::zero()];
    for a in 0..basis.len() {
        for &x in coefs {
            ws.push(basis[a] * fi::<F>(x));
            for b in 0..a {
                for &y in coefs {
                    ws.push(basis[a] * fi::<F>(x) + basis[b] * fi::<F>(y));
                }
            }
        }
    }
    ctx.count("generic-proofs", ws.len() as u64);
    let subs = subsets(n);
    for pts in &subs {
        for &d in &[1i64, -1, 2] {
            for k in 0..pts.len() {
                let mut x = wd.vals(&v, pts);
                x[k] += fi::<F>(d);
                for w in &ws {
                    ctx.step(1);
                    let p = Proof { w: A::of(*w) };
                    let r = wd.verify(&c, &x, pts, &p);
                    ctx.check(matches!(r, Verdict::Reject(_)), "generic-forgery", || format!("{} values {:?} at {:?}: {:?}", wd.tag, key_of(&x), pts, r));
                }
            }
        }
    }
}
pub fn a02_keys<E: Toy>(ctx: &Ctx, wd: &World<E>, alter: &[i64]) {
    let uk = &wd.p.proving_key.update_keys;
    let deny = |ctx: &Ctx, key: &str, pt: u32, u: &UpdateKey<E>| {
        ctx.step(1);
        match wd.upk_ok(pt, u) {
            Verdict::Reject(_) => ctx.count("rejected", 1),
            v => ctx.violate(key, || format!("{} position {}: {:?}", wd.tag, pt, v)),
        }
    };
    for i in 0..wd.n {
        for &d in alter {
            let d = fi::<E::Fr>(d);
            let (a, u) = (E::d1(&uk[i].ai), E::d1(&uk[i].ui));
            deny(ctx, "altered-update-key", i as u32, &UpdateKey { ai: E::g1(a + d), ui: E::g1(u) });
            deny(ctx, "altered-update-key", i as u32, &UpdateKey { ai: E::g1(a), ui: E::g1(u + d) });
            deny(ctx, "altered-update-key", i as u32, &UpdateKey { ai: E::g1(a + d), ui: E::g1(u + d) });
            // ui consistent with the altered ai
            let li = (a + d) * wd.xs[i] / fi::<E::Fr>(wd.n as i64);
            deny(ctx, "altered-update-key", i as u32, &UpdateKey { ai: E::g1(a + d), ui: E::g1((li - wd.g1) / (wd.tau - wd.xs[i])) });
        }
        deny(ctx, "position-outside", (i + wd.n) as u32, &uk[i]);
        for j in 0..wd.n {
            if i != j {
                deny(ctx, "other-positions-key", j as u32, &uk[i]);
                deny(ctx, "mixed-key", i as u32, &UpdateKey { ai: uk[i].ai, ui: uk[j].ui });
                deny(ctx, "mixed-key", i as u32, &UpdateKey { ai: uk[j].ai, ui: uk[i].ui });
            }
        }
    }
}
pub fn a02(ctx: &Ctx) {
    ctx.assume(TOY);
    ctx.assume("knowledge assumptions: forged proofs are small linear combinations of published elements (generic-group adversary), or alterations of honest ones");
    let t = ctx.thorough();
    struct J {
        n: usize,
        v: Vec<i64>,
    }
    let mut jobs = vec![];
    for n in 1..=ctx.b(4usize, 5) {
        for v in tuples(if n <= 3 || t { &[0i64, 1, 2][..] } else { &[0i64, 1][..] }, n) {
            jobs.push(J { n, v });
        }
    }
    for n in [5usize, 6, 7, 8] {
        jobs.push(J { n, v: (0..n as i64).collect() });
        jobs.push(J { n, v: vec![0; n] });
        jobs.push(J { n, v: (0..n as i64).map(|k| k % 2).collect() });
    }
    ctx.bound(format!("{} vectors (all over {{0,1,2}} for short lengths), every subset of positions, alterations by {:?}", jobs.len(), ctx.b(&[1, -1][..], &[1, -1, 2, 5][..])));
    par_for(&jobs, |_, j| {
        let wd = worlds::<EBig>(ctx, j.n, 1, "Fbig").pop().unwrap();
        let v: Vec<_> = j.v.iter().map(|x| fi(*x)).collect();
        let mut subs = subsets(wd.n);
        if wd.n == 8 && !t {
            subs.retain(|s| s.len() <= 2 || s.len() >= 7);
        }
        // unsorted position lists too
        let more: Vec<Vec<u32>> = subs.iter().filter(|s| s.len() > 1).map(|s| s.iter().rev().cloned().collect()).collect();
        subs.extend(more);
        a02_case(ctx, &wd, &v, ctx.b(&[1, -1], &[1, -1, 2, 5]), &subs);
        a02_keys(ctx, &wd, &[1, -1, 2, 5]);
    });
    for n in ctx.b(vec![1, 2], vec![1, 2, 3, 4]) {
        a02_span(ctx, n, ctx.b(&[1, -1], &[1, -1, 2, 3]));
    }
    ctx.bound("generic prover: every combination of at most two published elements with small coefficients, against every one-position false claim");
}
pub const TABLE: &[(&str, PropFn)] = &[("A01", a01), ("A02", a02)];
