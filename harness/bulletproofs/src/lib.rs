#![allow(non_snake_case)]
use ark_ff::{Field, One, Zero};
use ark_serialize::*;
use mccore::toy::*;
use mccore::*;
use mcfs::{causal, Causal, Subject};
use merlin::mc::{logged, Ev};
use merlin::Transcript;
use std::sync::Arc;
use zkp_bulletproofs::{create_random_proof, inner_product_proof as ipp, verify_proof, Generators, Proof, R1csCircuit};

pub type E = EBig;
pub type F = FBig;
pub type G1 = A<CfgBig, 1>;
pub const TOY: &str = "toy group with visible discrete logarithms over a 61-bit prime field runs the same curve-generic code as real curves; the Fiat-Shamir hash is the real merlin";

/// field-for-field mirrors of the (private) proof and generator layouts, exchanged as bytes
#[derive(CanonicalSerialize, CanonicalDeserialize, Clone)]
pub struct GensM {
    g_vec_N: Vec<G1>,
    h_vec_N: Vec<G1>,
    g: G1,
    h: G1,
    u: G1,
    n: usize,
    N: usize,
    k: usize,
    n_w: usize,
}
impl GensM {
    pub fn all(&self) -> Vec<(String, F)> {
        let mut v: Vec<(String, F)> = self.g_vec_N.iter().enumerate().map(|(i, x)| (format!("g_{}", i), x.0)).collect();
        v.extend(self.h_vec_N.iter().enumerate().map(|(i, x)| (format!("h_{}", i), x.0)));
        v.extend(vec![("g".to_string(), self.g.0), ("h".to_string(), self.h.0), ("u".to_string(), self.u.0)]);
        v
    }
}
#[derive(CanonicalSerialize, CanonicalDeserialize, Clone)]
pub struct IppM {
    L: Vec<G1>,
    R: Vec<G1>,
    a: F,
    b: F,
}
#[derive(CanonicalSerialize, CanonicalDeserialize, Clone)]
pub struct ProofM {
    A_I: G1,
    A_O: G1,
    A_W: G1,
    S: G1,
    T: TT,
    mu: F,
    tau_x: F,
    l_x: Vec<F>,
    r_x: Vec<F>,
    t_x: F,
    IPP: IppM,
    IPP_P: G1,
}
#[derive(CanonicalSerialize, CanonicalDeserialize, Clone)]
pub struct TT {
    t2: G1,
    t3: G1,
    t5: G1,
    t6: G1,
    t7: G1,
    t8: G1,
    t9: G1,
    t10: G1,
}
pub fn ser<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut v = vec![];
    t.serialize(&mut v).unwrap();
    v
}

pub struct Bp;
#[derive(Clone)]
pub struct Pf {
    pub env: Arc<(Generators<E>, R1csCircuit<E>)>,
    pub bytes: Vec<u8>,
}
pub fn check(env: &(Generators<E>, R1csCircuit<E>), b: &[u8], p: &[F]) -> Verdict {
    match Proof::<E>::deserialize(b) {
        Err(_) => Verdict::Reject("unparsable".into()),
        Ok(pr) => Verdict::of(guard(|| verify_proof(&env.0, &pr, &env.1, p))),
    }
}
impl Scheme<F> for Bp {
    type Key = ();
    type Proof = Pf;
    fn setup(&self, _: &Case<F>, _: u64) -> Result<(), String> {
        Ok(())
    }
    fn prove(&self, _: &(), c: &Case<F>, p: &[F], a: &[F], seed: u64) -> Result<Pf, String> {
        let (g, r, pr) = flat(guard(|| create_random_proof::<E, _, _>(c.inst_with(p, a), &mut Coins::seeded(seed))))?;
        Ok(Pf { env: Arc::new((g, r)), bytes: ser(&pr) })
    }
    fn verify(&self, _: &(), pr: &Pf, p: &[F]) -> Verdict {
        check(&pr.env, &pr.bytes, p)
    }
    fn bytes(&self, pr: &Pf) -> Vec<u8> {
        pr.bytes.clone()
    }
    fn parse(&self, like: &Pf, b: &[u8]) -> Option<Pf> {
        let p = Proof::<E>::deserialize(b).ok()?;
        Some(Pf { env: like.env.clone(), bytes: ser(&p) })
    }
    fn schema(&self) -> Option<&'static str> {
        Some("wwww(wwwwwwww)ww[w][w]w([w][w]ww)w")
    }
}
pub fn subject(c: &Case<F>) -> Option<Subject<F>> {
    let like = Bp.prove(&(), c, &c.public, &c.aux, 5).ok()?;
    let c1 = c.clone();
    Some(Subject {
        name: c.show(),
        schema: Bp.schema()?,
        publics: c.public.clone(),
        // the generators are drawn by the prover: same coins, same generators
        prove: Box::new(move |_| Bp.prove(&(), &c1, &c1.public, &c1.aux, 5).map(|p| p.bytes)),
        verify: Box::new(move |b, p| check(&like.env, b, p)),
    })
}

pub fn b01(ctx: &Ctx) {
    ctx.assume(TOY);
    let n = ctx.b(16, 24);
    let pubs: &[usize] = &[0, 1, 2, 3, 4, 7];
    let mut cases = sweep::<F>(n, pubs);
    for s in 0..SHAPES {
        for n in ctx.b(vec![15, 16, 17, 31, 32, 33], vec![31, 32, 33, 63, 64, 65, 100]) {
            cases.push(shaped(s, n, 2, 0));
        }
    }
    ctx.bound(format!("8 relation shapes x 0..={} constraints x publics {:?} x 3 allocation orders, plus sizes around powers of two", n, pubs));
    completeness(ctx, &Bp, &cases, ctx.b(&[1, 2][..], &[1, 2, 3][..]));
    let cs = single_cases::<F>(true, ctx.b(&[-2, -1, 0, 1, 2][..], &[-2, -1, 0, 1, 2, 3][..]));
    let big = ladder::<F>(ctx.b(10, 12), &[0, 2, 6]);
    ctx.bound(format!("{} relations with around 2^5..2^{} constraints or public inputs", big.len(), ctx.b(10, 12)));
    completeness(ctx, &Bp, &big, &[1]);
    double_sweep(ctx, &Bp, true);
    ctx.bound(format!("{} (relation, satisfying assignment) pairs of one-constraint relations over a 9-term alphabet", cs.len()));
    completeness(ctx, &Bp, &cs, &[1]);
    inner(ctx, true);
}
pub fn b02(ctx: &Ctx) {
    ctx.assume(TOY);
    let cases = sweep::<F>(ctx.b(7, 10), &[0, 1, 2, 3]);
    soundness(ctx, &Bp, &cases, &[1], &Sound { watch: Watch::Accepts, bad_witness: true, bad_public: true, tamper: true, max_tamper: usize::MAX });
    ctx.bound(format!("all single-variable corruptions of witness and publics and all single-position proof mutations of {} relations", cases.len()));
    single_unsound(ctx, &Bp, true, &[-1, 0, 1, 2]);
    double_sweep(ctx, &Bp, false);
    ctx.bound("all violating assignments over {-1,0,1,2} of all 729 one-constraint relations, real prover");
    cross(ctx);
    adversary(ctx, &cases);
    #[cfg(feature = "cheat")]
    wires(ctx);
    inner(ctx, false);
    let sub: Vec<Subject<F>> = ctx.b(&[(0usize, 1usize, 1usize), (1, 2, 1)][..], &[(0, 1, 1), (1, 2, 1), (2, 3, 1), (3, 4, 0)][..]).iter().filter_map(|(k, n, p)| subject(&shaped::<F>(*k, *n, *p, 0))).collect();
    mcfs::all_decide(ctx, &fs_subjects(ctx.b(1, 2)));
    causal(ctx, &sub, &Causal { window: 400, nearest: ctx.b(8, 12) });
}

/// An honest proof, its own generators, but the matrices of another relation.
pub fn cross(ctx: &Ctx) {
    let xs: Vec<Case<F>> = (0..SHAPES).flat_map(|k| (1..=3).flat_map(move |n| (1..=2).map(move |p| shaped::<F>(k, n, p, 0)))).collect();
    let pf: Vec<Pf> = xs.iter().map(|c| Bp.prove(&(), c, &c.public, &c.aux, 3).unwrap()).collect();
    let jobs: Vec<(usize, usize)> = (0..xs.len()).flat_map(|i| (0..xs.len()).map(move |j| (i, j))).filter(|(i, j)| i != j).collect();
    par_for(&jobs, |_, (i, j)| {
        let (a, b) = (&xs[*i], &xs[*j]);
        if a.rel.cons.len() != b.rel.cons.len() || a.rel.n_aux != b.rel.n_aux || a.rel.n_pub != b.rel.n_pub || a.rel.cons == b.rel.cons {
            return;
        }
        let pr = Proof::<E>::deserialize(&pf[*i].bytes[..]).unwrap();
        let v = Verdict::of(guard(|| verify_proof(&pf[*i].env.0, &pr, &pf[*j].env.1, &a.public)));
        ctx.step(1);
        ctx.trace(1);
        ctx.check(!v.acc(), "proof-accepted-under-another-relation", || format!("proof of {} accepted for {}", a.show(), b.show()));
    });
    ctx.bound("all ordered pairs of equally sized relations: proof of one checked against the matrices of the other");
}

/// The verifier's public-coin values on a proof, and the transcript up to the inner-product argument.
pub struct Seen {
    y: F,
    z: F,
    x: F,
    x1: F,
    tr: Transcript,
}
pub fn observe(env: &(Generators<E>, R1csCircuit<E>), b: &[u8], p: &[F]) -> Option<Seen> {
    let (_, log) = logged(|| check(env, b, p));
    let mut tr = None;
    let mut ch = vec![];
    for e in &log {
        match e {
            Ev::New(l) => {
                if tr.is_some() {
                    return None;
                }
                tr = Some(Transcript::new(l));
            }
            Ev::Append(l, m) if *l == b"dom-sep" => {
                let _ = m;
            }
            Ev::Append(l, m) => tr.as_mut()?.append_message(l, m),
            Ev::Challenge(l, c) => {
                let mut buf = vec![0u8; c.len()];
                tr.as_mut()?.challenge_bytes(l, &mut buf);
                ch.push(F::from_random_bytes(c)?);
                if ch.len() == 4 {
                    return Some(Seen { y: ch[0], z: ch[1], x: ch[2], x1: ch[3], tr: tr? });
                }
            }
        }
    }
    None
}
/// residual of the polynomial-commitment check, divided by g: (required t_x) - t_x
pub fn required_tx(gm: &GensM, r: &R1csCircuit<E>, pm: &ProofM, s: &Seen, publics: &[F]) -> F {
    let mut zq = vec![];
    let mut c = F::one();
    for _ in 0..gm.n {
        c *= s.z;
        zq.push(c);
    }
    let zn = c;
    let mut inp = vec![F::one()];
    inp.extend_from_slice(publics);
    let mut yi = F::one();
    let yinv = s.y.inverse().unwrap();
    let (mut delta, mut zc) = (F::zero(), F::zero());
    for i in 0..gm.n {
        delta += yi * zq[i] * zn * zq[i];
        yi *= yinv;
        for j in 0..gm.k {
            zc += zq[i] * inp[j] * (r.CL[i][j] + zn * r.CR[i][j] + zn * zn * r.CO[i][j]);
        }
    }
    let x = s.x;
    let t = &pm.T;
    let rhs = x.pow([4u64]) * (delta + zc) * gm.g.0
        + [(2u64, t.t2), (3, t.t3), (5, t.t5), (6, t.t6), (7, t.t7), (8, t.t8), (9, t.t9), (10, t.t10)].iter().map(|(e, c)| x.pow([*e]) * c.0).sum::<F>();
    (rhs - pm.tau_x * gm.h.0) * gm.g.0.inverse().unwrap()
}
pub fn ip(a: &[F], b: &[F]) -> F {
    a.iter().zip(b).map(|(x, y)| *x * y).sum()
}
pub fn run_ipp(gm: &GensM, pm: &mut ProofM, s: &mut Seen, claim: F) {
    let ux = G1::of(gm.u.0 * s.x1);
    let P = ip(&pm.l_x, &gm.g_vec_N.iter().map(|g| g.0).collect::<Vec<_>>()) + ip(&pm.r_x, &gm.h_vec_N.iter().map(|g| g.0).collect::<Vec<_>>()) + ux.0 * claim;
    pm.IPP_P = G1::of(P);
    let pr = ipp::prove::<E>(&mut s.tr, gm.g_vec_N.clone(), gm.h_vec_N.clone(), ux, &P_(P), pm.l_x.clone(), pm.r_x.clone());
    pm.IPP = IppM::deserialize(&ser(&pr)[..]).unwrap();
}
pub fn P_(x: F) -> mccore::toy::P<CfgBig, 1> {
    let a: mccore::toy::P<CfgBig, 1> = G1::of(x).into();
    a
}
/// Provers for false statements that satisfy every verifier equation but one.
pub fn adversary(ctx: &Ctx, cases: &[Case<F>]) {
    ctx.bound("for every false public vector and every violating witness of the sweep: t_x fitted to the commitments with the inner-product argument run (a) for the true product (b) for the claimed one; l_x, r_x fitted to t_x against the vector commitment");
    par_for(cases, |_, c| {
        let mut lies: Vec<(Vec<F>, Vec<F>)> = perturb(&c.aux).into_iter().map(|a| (c.public.clone(), a)).collect();
        lies.extend(perturb(&c.public).into_iter().map(|p| (p, c.aux.clone())));
        lies.push((c.public.clone(), c.aux.clone()));
        for (p, a) in lies {
            let truth = c.sat_with(&p, &a);
            let pf = match Bp.prove(&(), c, &p, &a, 5) {
                Ok(x) => x,
                Err(_) => continue,
            };
            let gm = GensM::deserialize(&ser(&pf.env.0)[..]).unwrap();
            let pm = ProofM::deserialize(&pf.bytes[..]).unwrap();
            let s = match observe(&pf.env, &pf.bytes, &p) {
                Some(s) => s,
                None => {
                    ctx.count("transcript not understood", 1);
                    continue;
                }
            };
            let want = required_tx(&gm, &pf.env.1, &pm, &s, &p);
            if truth {
                // baseline of the adversary: on a true statement it reproduces an accepted proof
                let mut q = pm.clone();
                q.t_x = want;
                let mut s2 = observe(&pf.env, &ser(&q), &p).unwrap();
                run_ipp(&gm, &mut q, &mut s2, want);
                ctx.count(if want == pm.t_x && check(&pf.env, &ser(&q), &p).acc() { "adversary baseline accepted" } else { "adversary baseline rejected" }, 1);
            } else {
                for claimed in [false, true] {
                    let mut q = pm.clone();
                    q.t_x = want;
                    let mut s2 = match observe(&pf.env, &ser(&q), &p) {
                        Some(s) => s,
                        None => continue,
                    };
                    let t = if claimed { want } else { ip(&q.l_x, &q.r_x) };
                    run_ipp(&gm, &mut q, &mut s2, t);
                    let v = check(&pf.env, &ser(&q), &p);
                    ctx.step(1);
                    ctx.trace(1);
                    ctx.state(&(c.name.as_str(), vs(&p), vs(&a), claimed));
                    ctx.check(!v.acc(), if claimed { "accepted-without-inner-product" } else { "accepted-with-foreign-inner-product" }, || format!("{} publics {} witness {}", c.show(), vs(&p), vs(&a)));
                }
            }
            // l, r not those committed to, but consistent with t_x
            for i in 0..pm.l_x.len() {
                let mut q = pm.clone();
                q.t_x = want;
                // move l_i so that <l, r> = t_x; if already equal, rotate l and r instead
                let d = want - ip(&q.l_x, &q.r_x);
                if q.r_x[i].is_zero() {
                    continue;
                }
                if d.is_zero() {
                    q.l_x[i] *= F::from(2u64);
                    q.r_x[i] *= F::from(2u64).inverse().unwrap();
                } else {
                    q.l_x[i] += d * q.r_x[i].inverse().unwrap();
                }
                let mut s2 = match observe(&pf.env, &ser(&q), &p) {
                    Some(s) => s,
                    None => continue,
                };
                run_ipp(&gm, &mut q, &mut s2, want);
                let v = check(&pf.env, &ser(&q), &p);
                ctx.step(1);
                ctx.trace(1);
                ctx.check(!v.acc(), "accepted-without-vector-commitment", || format!("{} publics {} witness {} l_{} refitted", c.show(), vs(&p), vs(&a), i));
            }
        }
    });
}

/// The inner-product argument on its own.
pub fn inner(ctx: &Ctx, complete: bool) {
    let vals: &[i64] = &[0, 1, -2];
    let mut jobs: Vec<(Vec<i64>, Vec<i64>)> = vec![];
    for n in [1usize, 2] {
        for t in tuples(vals, 2 * n) {
            jobs.push((t[..n].to_vec(), t[n..].to_vec()));
        }
    }
    for t in tuples(&[0i64, 3], 8) {
        jobs.push((t[..4].to_vec(), t[4..].to_vec()));
    }
    if complete {
        for k in 6..=ctx.b(13, 15) {
            let n = 1i64 << k;
            jobs.push(((0..n).map(|i| (i * 7) % 5 - 2).collect(), (0..n).map(|i| (i * 3) % 4).collect()));
        }
    }
    for n in ctx.b(vec![8usize, 16, 32], vec![8, 16, 32, 64, 128, 256]) {
        for k in 0..4i64 {
            jobs.push(((0..n as i64).map(|i| (i * 7 + k) % 5 - 2).collect(), (0..n as i64).map(|i| (i * 3 + k) % 4).collect()));
        }
    }
    ctx.bound(format!("inner-product argument: {} vector pairs of length 1..{}, (soundness: every alteration of P, of the product, of each L, R, a, b and every list length)", jobs.len(), ctx.b(32, 256)));
    par_for(&jobs, |_, (a, b)| {
        let n = a.len();
        let g: Vec<G1> = (0..n).map(|i| G1::of(F::from(1001 + 17 * i as u64))).collect();
        let h: Vec<G1> = (0..n).map(|i| G1::of(F::from(5003 + 29 * i as u64))).collect();
        let u = G1::of(F::from(777u64));
        let a: Vec<F> = a.iter().map(|x| fi::<F>(*x)).collect();
        let b: Vec<F> = b.iter().map(|x| fi::<F>(*x)).collect();
        let gg: Vec<F> = g.iter().map(|x| x.0).collect();
        let hh: Vec<F> = h.iter().map(|x| x.0).collect();
        let base = ip(&a, &gg) + ip(&b, &hh);
        let c = ip(&a, &b);
        let run = |P: F| {
            let mut t = Transcript::new(b"mc");
            let pr = guard(|| ipp::prove::<E>(&mut t, g.clone(), h.clone(), u, &P_(P), a.clone(), b.clone()));
            pr.map(|p| IppM::deserialize(&ser(&p)[..]).unwrap())
        };
        let chk = |P: F, m: &IppM| {
            ctx.step(1);
            ctx.trace(1);
            let pr = ipp::Proof::<E>::deserialize(&ser(m)[..]).unwrap();
            let r = guard(|| ipp::verify::<E>(&mut Transcript::new(b"mc"), g.clone(), h.clone(), u, &P_(P), &pr));
            matches!(r, Ok(true))
        };
        ctx.state(&("ipp", vs(&a), vs(&b)));
        let P = base + u.0 * c;
        let m = match run(P) {
            Ok(m) => m,
            Err(e) => {
                if complete {
                    ctx.violate("inner-product-prover-fails", || format!("n={} {}", n, e));
                }
                return;
            }
        };
        let ok = chk(P, &m);
        if complete {
            ctx.check(ok, "honest-inner-product-rejected", || format!("a={} b={}", vs(&a), vs(&b)));
            return;
        }
        for d in [1i64, -1] {
            let bad = base + u.0 * (c + fi::<F>(d));
            if let Ok(m2) = run(bad) {
                ctx.check(!chk(bad, &m2), "wrong-inner-product-accepted", || format!("a={} b={} claimed +{}", vs(&a), vs(&b), d));
            }
            ctx.check(!chk(bad, &m), "wrong-inner-product-accepted", || format!("a={} b={} statement +{}", vs(&a), vs(&b), d));
            if n > 1 {
                for i in 0..m.L.len() {
                    for side in 0..2 {
                        let mut q = m.clone();
                        let v = if side == 0 { &mut q.L } else { &mut q.R };
                        v[i] = G1::of(v[i].0 + fi::<F>(d));
                        ctx.check(!chk(P, &q), "altered-inner-product-accepted", || format!("a={} b={} round {}", vs(&a), vs(&b), i));
                    }
                }
            }
            let mut q = m.clone();
            q.a += fi::<F>(d);
            ctx.check(!chk(P, &q), "altered-inner-product-accepted", || format!("a={} b={} a", vs(&a), vs(&b)));
            let mut q = m.clone();
            q.b += fi::<F>(d);
            ctx.check(!chk(P, &q), "altered-inner-product-accepted", || format!("a={} b={} b", vs(&a), vs(&b)));
        }
        for side in 0..2 {
            for grow in [false, true] {
                let mut q = m.clone();
                let v = if side == 0 { &mut q.L } else { &mut q.R };
                if grow {
                    v.push(G1::of(F::one()));
                } else if v.pop().is_none() {
                    continue;
                }
                ctx.check(!chk(P, &q), "altered-inner-product-accepted", || format!("a={} b={} list length", vs(&a), vs(&b)));
            }
        }
    });
}
pub const TABLE: &[(&str, PropFn)] = &[("B01", b01), ("B02", b02), ("dump", |_| mcfs::dump(&subject(&shaped::<F>(1, 2, 1, 0)).unwrap()))];

/// the statements whose transcripts are tabulated
pub fn fs_subjects(level: usize) -> Vec<(String, Subject<F>)> {
    fs_shapes(level)
        .into_iter()
        .filter_map(|c| subject(&c).map(|s| (format!("bulletproofs {}", c.name), s)))
        .collect()
}

/// Wire vectors of the prover's choice: the argument binds each wire to its row of each matrix.
#[derive(CanonicalSerialize, CanonicalDeserialize, Clone)]
pub struct AssignM {
    aL: Vec<F>,
    aR: Vec<F>,
    aO: Vec<F>,
    s: Vec<F>,
    w: Vec<F>,
}
#[cfg(feature = "cheat")]
pub fn wires(ctx: &Ctx) {
    use zkp_bulletproofs::arithmetic_circuit::{prove, Assignment};
    let mut cs: Vec<Case<F>> = vec![];
    for n in 1..=3usize {
        cs.push(shaped(0, n, 1, 0));
        for k in ctx.b(vec![1, 2, 3], (1..SHAPES).collect()) {
            cs.push(shaped(k, n, n % 2, 0));
        }
        // rows without a term: every wire is zero
        let mut e = shaped::<F>(0, n, 1, 0);
        for c in e.rel.cons.iter_mut() {
            *c = Default::default();
        }
        cs.push(e);
    }
    // every one-row relation of the alphabet, with every satisfying assignment
    cs.extend(single_cases::<F>(true, ctx.b(&[-1, 0][..], &[-1, 0, 1, 2][..])));
    let three = ctx.b(4, cs.len());
    let mut left = three;
    let mut jobs: Vec<(usize, Vec<i64>)> = vec![];
    let mut envs = vec![];
    for c in &cs {
        let n = c.rel.cons.len();
        let pf = match Bp.prove(&(), c, &c.public, &c.aux, 3) {
            Ok(p) => p,
            Err(_) => {
                ctx.count("prover refused honest witness", 1);
                continue;
            }
        };
        if n == 3 {
            if left == 0 && !c.rel.cons.iter().all(|x| x.iter().all(|l| l.is_empty())) {
                continue;
            }
            left = left.saturating_sub(1);
        }
        envs.push((c, pf.env));
        for t in tuples(&[0i64, 1, -1], 3 * n) {
            // on three rows, up to five wires moved
            if n == 3 && t.iter().filter(|x| **x != 0).count() > ctx.b(4, 6) {
                continue;
            }
            jobs.push((envs.len() - 1, t));
        }
    }
    par_for(&jobs, |_, (k, t)| {
        let (c, env) = &envs[*k];
        let n = c.rel.cons.len();
        let full: Vec<F> = std::iter::once(F::one()).chain(c.public.iter().cloned()).chain(c.aux.iter().cloned()).collect();
        let (gens, r) = (&env.0, &env.1);
        let of = |m: &Vec<Vec<F>>, o: usize| -> Vec<F> { (0..n).map(|i| ip(&m[i], &full) + fi::<F>(t[o + i])).collect() };
        let a = AssignM { aL: of(&r.CL, 0), aR: of(&r.CR, n), aO: of(&r.CO, 2 * n), s: full[..1 + c.public.len()].to_vec(), w: c.aux.clone() };
        let inp = match Assignment::<E>::deserialize(&ser(&a)[..]) {
            Ok(x) => x,
            Err(_) => {
                ctx.count("assignment not understood", 1);
                return;
            }
        };
        let pr = match guard(|| prove(gens, r, &inp, &mut Coins::seeded(9))) {
            Ok(p) => p,
            Err(_) => {
                ctx.count("prover refused the wires", 1);
                return;
            }
        };
        let v = Verdict::of(guard(|| verify_proof(gens, &pr, r, &c.public)));
        ctx.step(1);
        ctx.trace(1);
        ctx.state(&(*k, t));
        if t.iter().all(|x| *x == 0) {
            ctx.count(if v.acc() { "honest wires accepted" } else { "honest wires rejected" }, 1);
        } else {
            ctx.check(!v.acc(), "wires-not-of-the-relation", || format!("{}: wires moved by {:?} (left, right, output) accepted", c.show(), t));
        }
    });
    ctx.bound(format!("{} relations of 1..3 rows: every move of the wire vectors by {{-1,0,1}} per wire (three rows: up to {} wires at once), real prover", envs.len(), ctx.b(4, 6)));
}
