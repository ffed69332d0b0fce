use ark_ec::PairingEngine;
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use mccore::toy::*;
use mccore::*;
use std::collections::BTreeMap;
use zkp_groth16::{generator, prepare_verifying_key, prover, verifier::verify_proof, Parameters, PreparedVerifyingKey, Proof};

pub struct Groth<E>(std::marker::PhantomData<E>);
impl<E: PairingEngine> Groth<E> {
    pub fn new() -> Self {
        Groth(std::marker::PhantomData)
    }
}
unsafe impl<E> Sync for Groth<E> {}

impl<E: PairingEngine> Scheme<E::Fr> for Groth<E>
where
    Parameters<E>: Sync,
{
    type Key = (Parameters<E>, PreparedVerifyingKey<E>);
    type Proof = Proof<E>;
    fn setup(&self, c: &Case<E::Fr>, seed: u64) -> Result<Self::Key, String> {
        let p = flat(guard(|| generator::generate_random_parameters::<E, _, _>(c.blank(), &mut Coins::seeded(seed))))?;
        let v = prepare_verifying_key(&p.vk);
        Ok((p, v))
    }
    fn prove(&self, k: &Self::Key, c: &Case<E::Fr>, p: &[E::Fr], a: &[E::Fr], seed: u64) -> Result<Self::Proof, String> {
        flat(guard(|| prover::create_random_proof(&k.0, c.inst_with(p, a), &mut Coins::seeded(seed))))
    }
    fn verify(&self, k: &Self::Key, pr: &Self::Proof, p: &[E::Fr]) -> Verdict {
        Verdict::of(guard(|| verify_proof(&k.1, pr, p)))
    }
    fn bytes(&self, pr: &Self::Proof) -> Vec<u8> {
        let mut v = vec![];
        pr.serialize(&mut v).unwrap();
        v
    }
    fn parse(&self, _: &Self::Proof, b: &[u8]) -> Option<Self::Proof> {
        Proof::deserialize(b).ok()
    }
    // A and B live in different groups on a real curve; in the toy algebra e(A,B) = e(B,A)
    fn benign(&self, what: &str) -> bool {
        what == "words 0<->1"
    }
}

/// Groth16 completeness
pub fn g01(ctx: &Ctx) {
    ctx.assume("toy pairing (groups of known discrete logarithms over 61-bit and 5-bit prime fields) exercises the same curve-generic code as real curves");
    let big = Groth::<EBig>::new();
    // sizes
    let n = ctx.b(33, 64);
    let pubs: &[usize] = if ctx.thorough() { &[0, 1, 2, 3, 4, 5, 7, 8, 9] } else { &[0, 1, 2, 3, 4, 7, 8] };
    let mut cases = sweep::<FBig>(n, pubs);
    for s in 0..SHAPES {
        for n in ctx.b(vec![63, 64, 65, 127, 128], vec![65, 100, 127, 128, 129, 255, 256, 300]) {
            cases.push(shaped(s, n, 2, 0));
        }
    }
    ctx.bound(format!("8 relation shapes x 0..={} constraints x publics {:?} x 3 allocation orders, plus sizes around powers of two", n, pubs));
    completeness(ctx, &big, &cases, ctx.b(&[1, 2, 3][..], &[1, 2, 3, 4][..]));
    let large = ladder::<FBig>(ctx.b(11, 13), &[0, 2, 6]);
    ctx.bound(format!("{} relations with around 2^5..2^{} constraints or public inputs", large.len(), ctx.b(11, 13)));
    completeness(ctx, &big, &large, &[1]);
    double_sweep(ctx, &big, true);
    // every one-constraint relation, every satisfying assignment
    let rels = single_constraint_rels(true);
    ctx.bound(format!("all {} one-constraint relations over a 9-term alphabet x all satisfying assignments over {{-1,0,1,2}}", rels.len()));
    let mut cs = vec![];
    for r in &rels {
        for (p, a, s) in all_assignments::<FBig>(r, &[-1, 0, 1, 2]) {
            if s {
                cs.push(Case { rel: r.clone(), public: p, aux: a, order: 0, name: "single".into() });
            }
        }
    }
    completeness(ctx, &big, &cs, &[1]);
    // all non-zero toxic wastes (gamma, delta) x all tau in a 17-element field
    let tiny: Vec<Case<F17>> = vec![shaped(0, 1, 1, 0), shaped(0, 2, 2, 2), shaped(3, 3, 1, 1), shaped(4, 4, 1, 0), shaped(7, 1, 0, 0)];
    let mut jobs = vec![];
    for c in &tiny {
        for g in 1..17u64 {
            for d in 1..17u64 {
                jobs.push((c.clone(), g, d));
            }
        }
    }
    ctx.bound("F17: every nonzero (gamma, delta), every evaluation point draw, every (r, s) in {0,1,5}^2");
    par_for(&jobs, |_, (c, g, d)| {
        for t in 0..17u64 {
            let mut coins = Coins::script(vec![t, 3, 7, 2, 9, 11]);
            let pk = match flat(guard(|| {
                generator::generate_parameters::<E17, _, _>(c.blank(), F17::from(3u64), F17::from(8u64), F17::from(*g), F17::from(*d), &mut coins)
            })) {
                Ok(p) => p,
                Err(e) => {
                    ctx.violate("setup-fails-on-nonzero-toxic-waste", || format!("{} gamma={} delta={} t={} : {}", c.show(), g, d, t, e));
                    continue;
                }
            };
            let pvk = prepare_verifying_key(&pk.vk);
            for r in [0u64, 1, 5] {
                for s in [0u64, 1, 5] {
                    ctx.step(1);
                    ctx.trace(1);
                    let v = match flat(guard(|| prover::create_proof(&pk, c.inst(), F17::from(r), F17::from(s)))) {
                        Ok(pr) => Verdict::of(guard(|| verify_proof(&pvk, &pr, &c.public))),
                        Err(e) => Verdict::Crash(e),
                    };
                    ctx.state(&(c.name.as_str(), *g, *d, t, r, s));
                    if !v.acc() {
                        ctx.violate("honest-proof-rejected", || format!("F17 {} gamma={} delta={} t={} r={} s={}: {}", c.show(), g, d, t, r, s, v.show()));
                    }
                }
            }
        }
    });
    // the non-hiding prover
    for c in &cases[..200] {
        let k = match big.setup(c, 5) {
            Ok(k) => k,
            Err(_) => continue,
        };
        let v = match flat(guard(|| prover::create_proof_no_zk(&k.0, c.inst()))) {
            Ok(p) => big.verify(&k, &p, &c.public),
            Err(e) => Verdict::Crash(e),
        };
        ctx.trace(1);
        ctx.check(v.acc(), "honest-proof-rejected", || format!("no-zk prover {}: {}", c.show(), v.show()));
    }
}

/// Groth16 soundness
pub fn g02(ctx: &Ctx) {
    ctx.assume("toy pairing: discrete logs are visible, so the verification equation is decided exactly by field arithmetic");
    let big = Groth::<EBig>::new();
    // 1. verifier == verification equation, on every (A,B,C) and every public value in F17
    let tiny: Vec<Case<F17>> = vec![shaped(0, 1, 1, 0), shaped(5, 2, 2, 0), shaped(3, 3, 0, 0)];
    for c in &tiny {
        for seed in 1..=ctx.b(4u64, 8) {
            let pk = generator::generate_random_parameters::<E17, _, _>(c.blank(), &mut Coins::seeded(seed));
            let pk = match pk {
                Ok(p) => p,
                Err(_) => continue,
            };
            let vk = &pk.vk;
            let pvk = prepare_verifying_key(vk);
            let pubs: Vec<Vec<F17>> = tuples(&(0..17u64).collect::<Vec<_>>(), c.rel.n_pub.min(1))
                .into_iter()
                .map(|t| {
                    let mut v: Vec<F17> = t.into_iter().map(F17::from).collect();
                    while v.len() < c.rel.n_pub {
                        v.push(F17::from(5u64));
                    }
                    v
                })
                .collect();
            par_for(&pubs, |_, p| {
                let mut ic = vk.gamma_abc_g1[0].0;
                for (i, x) in p.iter().enumerate() {
                    ic += vk.gamma_abc_g1[i + 1].0 * x;
                }
                let mut n = 0;
                for a in 0..17u64 {
                    for b in 0..17u64 {
                        for cc in 0..17u64 {
                            let (fa, fb, fc) = (F17::from(a), F17::from(b), F17::from(cc));
                            let want = fa * fb == vk.alpha_g1.0 * vk.beta_g2.0 + ic * vk.gamma_g2.0 + fc * vk.delta_g2.0;
                            let pr = Proof::<E17> { a: A::of(fa), b: A::of(fb), c: A::of(fc) };
                            let got = Verdict::of(guard(|| verify_proof(&pvk, &pr, p)));
                            n += 1;
                            if want != got.acc() {
                                ctx.violate("verifier-differs-from-equation", || {
                                    format!("vk dlogs {:?}, publics {}, A={} B={} C={}: equation {} verifier {}", vk, vs(p), a, b, cc, want, got.show())
                                });
                            }
                        }
                    }
                }
                ctx.trace(n);
                ctx.step(n);
                for a in 0..n {
                    ctx.state(&(seed, c.name.as_str(), vs(p), a));
                }
            });
        }
    }
    ctx.bound("all 17^3 proofs x all public values for every F17 key of the sweep");
    // 2. cheating provers and tampering over the relation sweep
    let pubs: &[usize] = &[0, 1, 2, 3];
    let cases = sweep::<FBig>(ctx.b(8, 14), pubs);
    soundness(ctx, &big, &cases, &[1], &Sound { watch: Watch::Accepts, bad_witness: true, bad_public: true, tamper: true, max_tamper: usize::MAX });
    ctx.bound(format!("all single-variable corruptions of witness/publics, all single-position proof mutations, sizes 0..={} x publics 0..=3", ctx.b(8, 14)));
    double_sweep(ctx, &big, false);
    // one-constraint relations: every violating assignment, real prover
    let rels = single_constraint_rels(ctx.thorough());
    par_for(&rels, |_, r| {
        let c = Case { rel: r.clone(), public: vec![FBig::one()], aux: vec![FBig::one()], order: 0, name: "single".into() };
        let k = match big.setup(&c, 3) {
            Ok(k) => k,
            Err(_) => return,
        };
        for (p, a, s) in all_assignments::<FBig>(r, &[-1, 0, 1, 2]) {
            if s {
                continue;
            }
            ctx.step(1);
            if let Ok(pr) = big.prove(&k, &c, &p, &a, 9) {
                ctx.trace(1);
                ctx.state(&(r.clone(), vs(&p), vs(&a)));
                let v = big.verify(&k, &pr, &p);
                ctx.check(!v.acc(), "unsatisfying-witness", || format!("{} p={} w={}: {}", r.show(), vs(&p), vs(&a), v.show()));
            }
        }
    });
    // 3. algebraic adversaries: combinations of key elements added to an honest proof, or used
    //    from scratch, for a false statement, under two independent toxic wastes
    algebraic(ctx);
}

pub fn g1_elems(k: &Parameters<EBig>) -> Vec<(String, FBig)> {
    let mut v = vec![("0".to_string(), FBig::zero()), ("alpha".into(), k.vk.alpha_g1.0), ("beta".into(), k.beta_g1.0), ("delta".into(), k.delta_g1.0)];
    let mut add = |n: &str, q: &Vec<A<CfgBig, 1>>| {
        for (i, x) in q.iter().enumerate() {
            v.push((format!("{}{}", n, i), x.0));
        }
    };
    add("ic", &k.vk.gamma_abc_g1);
    add("a", &k.a_query);
    add("b", &k.b_g1_query);
    add("h", &k.h_query);
    add("l", &k.l_query);
    v
}
pub fn g2_elems(k: &Parameters<EBig>) -> Vec<(String, FBig)> {
    let mut v = vec![("0".to_string(), FBig::zero()), ("beta".into(), k.vk.beta_g2.0), ("gamma".into(), k.vk.gamma_g2.0), ("delta".into(), k.vk.delta_g2.0)];
    for (i, x) in k.b_g2_query.iter().enumerate() {
        v.push((format!("b{}", i), x.0));
    }
    v
}

pub fn algebraic(ctx: &Ctx) {
    let big = Groth::<EBig>::new();
    // statement: p1 = 9, p2 free, w*w = p1 ; plus p3 unused
    let rels: Vec<(Case<FBig>, Vec<Vec<FBig>>)> = {
        let f = |x: u64| FBig::from(x);
        let r1 = Rel { n_pub: 1, n_aux: 1, cons: vec![[vec![(1, 1), (0, -9)], vec![(0, 1)], vec![]], [vec![(2, 1)], vec![(2, 1)], vec![(1, 1)]]] };
        let r2 = Rel { n_pub: 2, n_aux: 1, cons: vec![[vec![(3, 1)], vec![(3, 1), (1, 1)], vec![(0, 10)]]] };
        let r3 = Rel { n_pub: 2, n_aux: 0, cons: vec![[vec![(1, 1)], vec![(2, 1)], vec![(0, 6)]]] };
        vec![
            (Case { rel: r1, public: vec![f(9)], aux: vec![f(3)], order: 0, name: "square".into() }, vec![vec![f(10)], vec![f(8)], vec![f(0)], vec![f(11)]]),
            // second public unused: proofs must still be bound to it
            (Case { rel: r2, public: vec![f(3), f(4)], aux: vec![f(2)], order: 0, name: "unused-public".into() }, vec![vec![f(3), f(5)], vec![f(3), f(3)], vec![f(4), f(3)]]),
            (Case { rel: r3, public: vec![f(2), f(3)], aux: vec![], order: 0, name: "public-only".into() }, vec![vec![f(2), f(4)], vec![f(2), f(2)], vec![f(1), f(3)], vec![f(3), f(3)]]),
        ]
    };
    let coefs: Vec<FBig> = ctx.b(vec![1i64, -1, 2], vec![1, -1, 2, -2]).into_iter().map(|x| fi::<FBig>(x)).collect();
    for (c, falses) in &rels {
        let keys: Vec<_> = (21..23u64).map(|s| big.setup(c, s).unwrap()).collect();
        let hon: Vec<_> = keys.iter().enumerate().map(|(i, k)| big.prove(k, c, &c.public, &c.aux, 40 + i as u64).unwrap()).collect();
        let e1: Vec<_> = keys.iter().map(|k| g1_elems(&k.0)).collect();
        let e2: Vec<_> = keys.iter().map(|k| g2_elems(&k.0)).collect();
        let (n1, n2) = (e1[0].len(), e2[0].len());
        // deltas: (index, coef) pairs; index 0 is the zero element
        let one1: Vec<(usize, usize)> = (0..n1).flat_map(|i| (0..if i == 0 { 1 } else { coefs.len() }).map(move |j| (i, j))).collect();
        let one2: Vec<(usize, usize)> = (0..n2).flat_map(|i| (0..if i == 0 { 1 } else { coefs.len() }).map(move |j| (i, j))).collect();
        let mut jobs = vec![];
        for (fi_, _) in falses.iter().enumerate() {
            for &a in &one1 {
                jobs.push((fi_, a));
            }
        }
        ctx.bound(format!("{}: base in {{honest proof, zero}}; A += one of {} terms, B += one of {}, C += sum of up to two of {}; {} false statements; accepted iff under both of two toxic wastes", c.name, one1.len(), one2.len(), one1.len(), falses.len()));
        par_for(&jobs, |_, (f, a)| {
            let p = &falses[*f];
            for from_scratch in [false, true] {
                for b in &one2 {
                    for c1 in &one1 {
                        // two-term C only when A and B are untouched (or both single) to stay within budget
                        let two: &[(usize, usize)] = if a.0 == 0 && b.0 == 0 { &one1 } else { &one1[..1] };
                        for c2 in two {
                            let mut all = true;
                            for k in 0..2 {
                                let base = if from_scratch { (FBig::zero(), FBig::zero(), FBig::zero()) } else { (hon[k].a.0, hon[k].b.0, hon[k].c.0) };
                                let pr = Proof::<EBig> {
                                    a: A::of(base.0 + e1[k][a.0].1 * coefs[a.1]),
                                    b: A::of(base.1 + e2[k][b.0].1 * coefs[b.1]),
                                    c: A::of(base.2 + e1[k][c1.0].1 * coefs[c1.1] + e1[k][c2.0].1 * coefs[c2.1]),
                                };
                                ctx.trace(1);
                                if !matches!(verify_proof(&keys[k].1, &pr, p), Ok(true)) {
                                    all = false;
                                    break;
                                }
                            }
                            ctx.step(1);
                            if all {
                                ctx.violate("algebraic-forgery", || {
                                    format!("{}: publics {} accepted with base {} A+={:?} B+={:?} C+={:?}+{:?} (elements {:?} / {:?})", c.show(), vs(p), from_scratch, a, b, c1, c2, e1[0][c1.0].0, e1[0][c2.0].0)
                                });
                            }
                        }
                    }
                }
            }
        });
        ctx.count("algebraic strategies families", jobs.len() as u64);
        ctx.sample("algebraic", || format!("{} vs false statements {:?}", c.show(), falses.iter().map(|p| vs(p)).collect::<Vec<_>>()));
    }
}

/// Groth16 zero knowledge: exact distribution of proofs over all coins in F17
pub fn g03(ctx: &Ctx) {
    ctx.assume("the prover's coins are the 64-bit words it draws from its generator; every accepted draw value is enumerated");
    // relations with several witnesses per statement
    let rels: Vec<Rel> = vec![
        Rel { n_pub: 1, n_aux: 2, cons: vec![[vec![(2, 1)], vec![(3, 1)], vec![(1, 1)]]] },
        Rel { n_pub: 0, n_aux: 1, cons: vec![[vec![(1, 1)], vec![(1, 1), (0, -1)], vec![]]] },
        Rel { n_pub: 1, n_aux: 2, cons: vec![[vec![(2, 1), (3, 1)], vec![(0, 1)], vec![(1, 1)]], [vec![(2, 1)], vec![(2, 1), (0, -1)], vec![]]] },
        Rel { n_pub: 1, n_aux: 1, cons: vec![[vec![(2, 1)], vec![(2, 1)], vec![(1, 1)]]] },
        Rel { n_pub: 0, n_aux: 2, cons: vec![] },
        Rel { n_pub: 1, n_aux: 1, cons: vec![[vec![(1, 1)], vec![], vec![]]] },
    ];
    ctx.bound("F17; 6 relations; every statement; every witness; every coin sequence (289 proofs per witness); 4 (12) keys");
    let mut jobs = vec![];
    for r in &rels {
        for s in 1..=ctx.b(8u64, 16) {
            jobs.push((r.clone(), s));
        }
    }
    par_for(&jobs, |_, (r, seed)| {
        let blank = r.inst::<F17>(None);
        let pk = match generator::generate_random_parameters::<E17, _, _>(blank, &mut Coins::seeded(*seed)) {
            Ok(p) => p,
            Err(_) => return,
        };
        if pk.vk.delta_g2.0.is_zero() || pk.delta_g1.0.is_zero() {
            return;
        }
        let pvk = prepare_verifying_key(&pk.vk);
        let dom: Vec<u64> = (0..17).collect();
        let mut by_stmt: BTreeMap<Vec<u64>, Vec<Vec<u64>>> = BTreeMap::new();
        for z in tuples(&dom, r.n_pub + r.n_aux) {
            let f: Vec<F17> = z.iter().map(|x| F17::from(*x)).collect();
            if r.sat(&Rel::z(&f[..r.n_pub], &f[r.n_pub..])) {
                by_stmt.entry(z[..r.n_pub].to_vec()).or_default().push(z[r.n_pub..].to_vec());
            }
        }
        let max_stmts = if r.n_aux == 2 && r.n_pub == 1 { ctx.b(8, 17) } else { 17 };
        for (x, ws) in by_stmt.into_iter().take(max_stmts) {
            let p: Vec<F17> = x.iter().map(|v| F17::from(*v)).collect();
            let mut reference: Option<BTreeMap<(u64, u64, u64), u64>> = None;
            for w in ws.iter().take(ctx.b(80, 289)) {
                let a: Vec<F17> = w.iter().map(|v| F17::from(*v)).collect();
                let mut dist: BTreeMap<(u64, u64, u64), u64> = BTreeMap::new();
                let n = explore(|ch| {
                    let mut rng = ChoiceRng { ch, n: 17, draws: 0 };
                    let pr = flat(guard(|| prover::create_random_proof(&pk, r.inst(Some((&p, &a))), &mut rng)));
                    ctx.step(1);
                    match pr {
                        Ok(pr) => *dist.entry((val(&pr.a.0), val(&pr.b.0), val(&pr.c.0))).or_insert(0) += 1,
                        Err(e) => ctx.violate("prover-fails", || format!("{} x={:?} w={:?}: {}", r.show(), x, w, e)),
                    }
                });
                ctx.trace(n);
                ctx.state(&(r.clone(), *seed, x.clone(), w.clone()));
                // exactly the set of accepting proofs, each equally often
                let total: u64 = dist.values().sum();
                let uniform = dist.len() == 289 && dist.values().all(|c| *c * 289 == total);
                ctx.check(uniform, "proof-distribution-not-uniform", || {
                    format!("{} key#{} x={:?} w={:?}: {} distinct proofs out of {} coin outcomes (expected 289 equally likely accepting ones)", r.show(), seed, x, w, dist.len(), total)
                });
                for (pa, pb, pc) in dist.keys() {
                    let pr = Proof::<E17> { a: A::of(F17::from(*pa)), b: A::of(F17::from(*pb)), c: A::of(F17::from(*pc)) };
                    ctx.check(matches!(verify_proof(&pvk, &pr, &p), Ok(true)), "honest-proof-rejected", || format!("{} x={:?} w={:?}", r.show(), x, w));
                }
                match &reference {
                    None => reference = Some(dist),
                    Some(d) => {
                        ctx.check(*d == dist, "distribution-depends-on-witness", || format!("{} key#{} x={:?}: witnesses {:?} and {:?} give different proof distributions", r.show(), seed, x, ws[0], w));
                    }
                }
            }
            ctx.sample("distribution", || format!("{} key#{} x={:?}: {} witnesses, identical proof distributions over {} accepting proofs", r.show(), seed, x, ws.len(), 289));
        }
    });
    // no coin word is reused between proofs: each proof consumes its own draws
    let c: Case<FBig> = shaped(0, 3, 1, 0);
    let big = Groth::<EBig>::new();
    let k = big.setup(&c, 1).unwrap();
    let mut rng = Coins::seeded(77);
    let mut seen = std::collections::HashSet::new();
    for i in 0..ctx.b(1000, 5000) {
        let pr = prover::create_random_proof(&k.0, c.inst(), &mut rng).unwrap();
        ctx.trace(1);
        for (n, v) in [("A", pr.a.0), ("B", pr.b.0), ("C", pr.c.0)] {
            ctx.check(seen.insert((n, val(&v))), "proof-element-repeats", || format!("proof {} repeats {}", i, n));
        }
    }
}

pub const TABLE: &[(&str, PropFn)] = &[("G01", g01), ("G02", g02), ("G03", g03)];
