use ark_ec::PairingEngine;
use ark_ff::{Field, One, Zero};
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use mccore::toy::*;
use mccore::*;
use mcfs::{causal_in, Causal, Subject};
use zkp_marlin::{create_random_proof, index, universal_setup, verify_proof, IndexProverKey, IndexVerifierKey, Proof, UniversalParams};

pub mod pcs;

pub struct Marlin<E>(std::marker::PhantomData<E>);
impl<E> Marlin<E> {
    pub fn new() -> Self {
        Marlin(Default::default())
    }
}
unsafe impl<E> Sync for Marlin<E> {}
pub struct Key<E: PairingEngine> {
    // the prover key borrows the parameters: leaked, the exploration is short lived
    pk: IndexProverKey<'static, E>,
    vk: IndexVerifierKey<E>,
}
unsafe impl<E: PairingEngine> Sync for Key<E> {}
unsafe impl<E: PairingEngine> Send for Key<E> {}

/// universal parameters big enough for a relation, or whatever the caller passes
pub fn degree(rel: &Rel) -> usize {
    let nv = (1 + rel.n_pub.next_power_of_two() + rel.n_aux).max(rel.cons.len()).max(1);
    let nnz = rel.cons.iter().map(|c| c.iter().map(|l| l.len()).max().unwrap()).sum::<usize>().max(1);
    // the three matrices may be balanced against each other
    let nnz = nnz.max(rel.cons.iter().map(|c| c[0].len().max(c[1].len()).max(c[2].len())).sum::<usize>());
    (3 * (2 * nv).next_power_of_two() + 1).max(3 * nnz.next_power_of_two()).max(8)
}
impl<E: PairingEngine> Scheme<E::Fr> for Marlin<E> {
    type Key = Key<E>;
    type Proof = Proof<E>;
    fn setup(&self, c: &Case<E::Fr>, seed: u64) -> Result<Self::Key, String> {
        let srs = flat(guard(|| universal_setup::<E, _>(degree(&c.rel), &mut Coins::seeded(seed))))?;
        let srs: &'static UniversalParams<E> = Box::leak(Box::new(srs));
        let (pk, vk) = flat(guard(|| index(srs, c.blank())))?;
        Ok(Key { pk, vk })
    }
    fn prove(&self, k: &Self::Key, c: &Case<E::Fr>, p: &[E::Fr], a: &[E::Fr], seed: u64) -> Result<Self::Proof, String> {
        flat(guard(|| create_random_proof(&k.pk, c.inst_with(p, a), &mut Coins::seeded(seed))))
    }
    fn verify(&self, k: &Self::Key, pr: &Self::Proof, p: &[E::Fr]) -> Verdict {
        Verdict::of(guard(|| verify_proof(&k.vk, pr, p)))
    }
    fn bytes(&self, pr: &Self::Proof) -> Vec<u8> {
        let mut v = vec![];
        pr.serialize(&mut v).unwrap();
        v
    }
    fn parse(&self, _: &Self::Proof, b: &[u8]) -> Option<Self::Proof> {
        Proof::deserialize(b).ok()
    }
    fn schema(&self) -> Option<&'static str> {
        Some("[[(w?w)]][w][(w?w)]")
    }
    fn benign(&self, what: &str) -> bool {
        // an opening without a blinding value and one with blinding value zero mean the same
        what.starts_with("option [2, ") && what.ends_with("filled with zero")
    }
}
pub fn subject(c: &Case<FBig>) -> Option<Subject<FBig>> {
    let s = Marlin::<EBig>(Default::default());
    let k = std::sync::Arc::new(s.setup(c, 3).ok()?);
    let like = s.prove(&k, c, &c.public, &c.aux, 4).ok()?;
    let (c1, k1) = (c.clone(), k.clone());
    Some(Subject {
        name: c.show(),
        schema: s.schema()?,
        publics: c.public.clone(),
        prove: Box::new(move |seed| {
            let s = Marlin::<EBig>(Default::default());
            s.prove(&k1, &c1, &c1.public, &c1.aux, seed).map(|p| s.bytes(&p))
        }),
        verify: Box::new(move |b, p| {
            let s = Marlin::<EBig>(Default::default());
            match s.parse(&like, b) {
                Some(pr) => s.verify(&k, &pr, p),
                None => Verdict::Reject("unparsable".into()),
            }
        }),
    })
}
/// a field element drawn from a 64-bit block, as the field's uniform sampler does it
pub fn drawn(c: &[u8]) -> Vec<FBig> {
    use ark_ff::UniformRand;
    struct One(u64);
    impl rand::RngCore for One {
        fn next_u32(&mut self) -> u32 {
            self.0 as u32
        }
        fn next_u64(&mut self) -> u64 {
            let v = self.0;
            // a second draw (after a rejected one) always succeeds
            self.0 = 1;
            v
        }
        fn fill_bytes(&mut self, d: &mut [u8]) {
            d.iter_mut().for_each(|x| *x = 1)
        }
        fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
            Ok(self.fill_bytes(d))
        }
    }
    if c.len() != 8 {
        return vec![];
    }
    let mut b = [0u8; 8];
    b.copy_from_slice(c);
    vec![FBig::rand(&mut One(u64::from_le_bytes(b)))]
}
pub fn cases_big(ctx: &Ctx) -> (Vec<Case<FBig>>, String) {
    let n = ctx.b(24, 40);
    let pubs: &[usize] = if ctx.thorough() { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16] } else { &[0, 1, 2, 3, 4, 7, 8] };
    let mut v = sweep::<FBig>(n, pubs);
    for s in 0..SHAPES {
        for n in ctx.b(vec![31, 32, 33], vec![62, 63, 64, 65, 127, 128, 129]) {
            v.push(shaped(s, n, 2, 0));
        }
    }
    (v, format!("8 relation shapes x 0..={} constraints x publics {:?} x 3 allocation orders, plus sizes around powers of two", n, pubs))
}
pub fn m01(ctx: &Ctx) {
    ctx.assume(TOY);
    let s = Marlin::<EBig>(Default::default());
    let (cases, b) = cases_big(ctx);
    ctx.bound(b);
    completeness(ctx, &s, &cases, ctx.b(&[1][..], &[1, 2][..]));
    let large = ladder::<FBig>(ctx.b(11, 13), &[0, 2, 6]);
    ctx.bound(format!("{} relations with around 2^5..2^{} constraints or public inputs", large.len(), ctx.b(11, 13)));
    completeness(ctx, &s, &large, &[1]);
    double_sweep(ctx, &s, true);
    let cs = single_cases::<FBig>(true, ctx.b(&[-2, -1, 0, 1, 2][..], &[-2, -1, 0, 1, 2, 3][..]));
    ctx.bound(format!("{} (relation, satisfying assignment) pairs of one-constraint relations over a 9-term alphabet", cs.len()));
    completeness(ctx, &s, &cs, &[1]);
    // one universal string serves several relations, of any admissible size
    let srs = universal_setup::<EBig, _>(1500, &mut Coins::seeded(9)).unwrap();
    for c in cases.iter().filter(|c| c.rel.cons.len() <= 8) {
        ctx.step(1);
        match flat(guard(|| index(&srs, c.blank()))) {
            Err(e) => ctx.violate("setup-fails", || format!("shared parameters {}: {}", c.show(), e)),
            Ok((pk, vk)) => {
                let v = match flat(guard(|| create_random_proof(&pk, c.inst(), &mut Coins::seeded(4)))) {
                    Err(e) => Verdict::Crash(e),
                    Ok(pr) => Verdict::of(guard(|| verify_proof(&vk, &pr, &c.public))),
                };
                ctx.trace(1);
                ctx.check(v.acc(), "honest-proof-rejected", || format!("shared parameters {}: {}", c.show(), v.show()));
            }
        }
    }
    ctx.bound("one universal string of degree 2048 shared by every relation of the sweep with at most 8 constraints");
}
pub const TOY: &str = "toy pairing groups with visible discrete logarithms over a 61-bit prime field run the same curve-generic code as real curves";
pub fn m02(ctx: &Ctx) {
    ctx.assume(TOY);
    let s = Marlin::<EBig>(Default::default());
    let cases = sweep::<FBig>(ctx.b(7, 10), &[0, 1, 2, 3, 4]);
    soundness(ctx, &s, &cases, &[1], &Sound { watch: Watch::Accepts, bad_witness: true, bad_public: true, tamper: true, max_tamper: usize::MAX });
    ctx.bound(format!("all single-variable corruptions of witness and publics and all single-position proof mutations of {} relations", cases.len()));
    single_unsound(ctx, &s, true, &[-1, 0, 1, 2]);
    double_sweep(ctx, &s, false);
    ctx.bound("all violating assignments over {-1,0,1,2} of all 729 one-constraint relations, real prover");
    let xs: Vec<Case<FBig>> = (0..SHAPES).flat_map(|k| (1..=3).flat_map(move |n| (1..=2).map(move |p| shaped::<FBig>(k, n, p, 0)))).collect();
    cross_key(ctx, &s, &xs);
    ctx.bound(format!("all ordered pairs of {} relations: proof of one checked under the key of the other", xs.len()));
    trapdoor(ctx);
    let small: &[(usize, usize, usize)] = ctx.b(&[(0, 1, 1), (6, 2, 2)], &[(0, 1, 1), (6, 2, 2), (1, 3, 1), (3, 4, 3)]);
    let sub: Vec<Subject<FBig>> = small.iter().filter_map(|(k, n, p)| subject(&shaped::<FBig>(*k, *n, *p, 0))).collect();
    mcfs::all_decide(ctx, &fs_subjects(ctx.b(1, 2)));
    causal_in(ctx, &sub, &Causal { window: 100, nearest: ctx.b(6, 16) }, |_, _| false, drawn);
}
pub fn dump(_: &Ctx) {
    mcfs::dump(&subject(&shaped::<FBig>(0, 2, 1, 0)).unwrap());
}

/// Everything the verifier derives from a proof before it looks at the openings.
pub struct View {
    st: zkp_marlin::ahp::verifier::VerifierState<FBig>,
    queries: Vec<(String, FBig)>,
    opening: FBig,
}
pub fn view(vk: &IndexVerifierKey<EBig>, pr: &Proof<EBig>, publics: &[FBig]) -> View {
    use ark_ff::{to_bytes, UniformRand};
    use zkp_marlin::ahp::AHP;
    let mut fs = zkp_marlin::fs_rng::FiatShamirRng::from_seed(&to_bytes![&vk, &publics].unwrap());
    fs.absorb(&to_bytes![&pr.commitments[0]].unwrap());
    let (st, _) = AHP::<FBig>::verifier_first_round(vk.index_info, &mut fs).unwrap();
    fs.absorb(&to_bytes![&pr.commitments[1]].unwrap());
    let (st, _) = AHP::<FBig>::verifier_second_round(st, &mut fs).unwrap();
    fs.absorb(&to_bytes![&pr.commitments[2]].unwrap());
    let st = AHP::<FBig>::verifier_third_round(st, &mut fs).unwrap();
    let queries = AHP::<FBig>::verifier_query_set(&st).into_iter().collect();
    fs.absorb(&pr.evaluations);
    let opening: FBig = u128::rand(&mut fs).into();
    View { st, queries, opening }
}
/// The two identities of the protocol, as residuals (zero iff the identity holds).
pub fn residuals(v: &View, e: &[FBig], publics: &[FBig]) -> (FBig, FBig) {
    let g = |l: &str| e[v.queries.iter().position(|q| q.0 == l).unwrap()];
    let (al, be, ga) = (v.st.alpha.unwrap(), v.st.beta.unwrap(), v.st.gamma.unwrap());
    let (ea, eb, ec) = (v.st.eta_a.unwrap(), v.st.eta_b.unwrap(), v.st.eta_c.unwrap());
    let one = FBig::one();
    let nh = v.st.domain_h.size() as u64;
    let nk = v.st.domain_k.size() as u64;
    let vh = |x: FBig| x.pow([nh]) - one;
    let mut inp = vec![one];
    inp.extend_from_slice(publics);
    let nx = inp.len().next_power_of_two().max(2);
    inp.resize(nx, FBig::zero());
    let dx = GeneralEvaluationDomain::<FBig>::new(nx).unwrap();
    // Lagrange evaluation of the public polynomial at beta
    let mut x = FBig::zero();
    for i in 0..nx {
        let w = dx.element(i);
        let mut l = inp[i];
        for j in 0..nx {
            if j != i {
                let u = dx.element(j);
                l *= (be - u) * (w - u).inverse().unwrap();
            }
        }
        x += l;
    }
    let vx = be.pow([nx as u64]) - one;
    let r = (vh(al) - vh(be)) * (al - be).inverse().unwrap();
    let outer = g("mask") + r * (ea * g("z_a") + eb * g("z_b") + ec * g("z_a") * g("z_b"))
        - g("t") * (vx * g("w") + x)
        - g("h_1") * vh(be)
        - be * g("g_1");
    let d = |m: &str| al * be - al * g(&format!("{}_row", m)) - be * g(&format!("{}_col", m)) + g(&format!("{}_row_col", m));
    let (da, db, dc) = (d("a"), d("b"), d("c"));
    let a = (ea * g("a_val") * db * dc + eb * g("b_val") * dc * da + ec * g("c_val") * da * db) * vh(al) * vh(be);
    let b = da * db * dc;
    let inner = g("h_2") * (ga.pow([nk]) - one) - a + b * (ga * g("g_2") + g("t") * FBig::from(nk).inverse().unwrap());
    (outer, inner)
}
pub const LABELS: [&str; 21] = [
    "a_row", "a_col", "a_val", "a_row_col", "b_row", "b_col", "b_val", "b_row_col", "c_row", "c_col", "c_val", "c_row_col", "w", "z_a", "z_b", "mask", "t", "g_1", "h_1", "g_2", "h_2",
];
/// Openings that satisfy the pairing equation at both points for the claimed values, computed
/// with the trapdoor. `lie` replaces the value used for one label (main or degree-bound part).
pub fn forge(vk: &IndexVerifierKey<EBig>, pr: &mut Proof<EBig>, publics: &[FBig], lie: Option<(&str, bool, FBig)>) {
    let v = view(vk, pr, publics);
    let k = &vk.verifier_key;
    let trap = k.beta_h.0 * k.h.0.inverse().unwrap();
    let comms: Vec<_> = vk.index_comms.iter().chain(pr.commitments.iter().flatten()).collect();
    let mut points: Vec<FBig> = v.queries.iter().map(|q| q.1).collect();
    points.sort();
    points.dedup();
    let mut out = vec![];
    for z in points {
        let (mut cc, mut vv, mut ch) = (FBig::zero(), FBig::zero(), FBig::one());
        for (i, (l, p)) in v.queries.iter().enumerate() {
            if *p != z {
                continue;
            }
            let c = comms[LABELS.iter().position(|x| x == l).unwrap()];
            let val = |shifted: bool| match lie {
                Some((ll, sh, x)) if ll == l && sh == shifted => x,
                _ => pr.evaluations[i],
            };
            cc += c.comm.0 .0 * ch;
            vv += val(false) * ch;
            if let Some(s) = &c.shifted_comm {
                let bound = match l.as_str() {
                    "g_1" => v.st.domain_h.size() - 2,
                    "g_2" => v.st.domain_k.size() - 2,
                    _ => unreachable!(),
                };
                let c2 = ch * v.opening;
                cc += s.0 .0 * c2;
                vv += z.pow([(k.supported_degree - bound) as u64]) * val(true) * c2;
            }
            ch *= v.opening.square();
        }
        let w = (cc - vv * k.g.0) * (trap - z).inverse().unwrap();
        out.push(zkp_marlin::pc::Proof::<EBig> { w: A::of(w), rand_v: None });
    }
    pr.opening_proofs = out;
}
/// A prover who can open commitments to anything (toy trapdoor): the verifier must still insist
/// on both identities and on every opening, one at a time.
pub fn trapdoor(ctx: &Ctx) {
    let s = Marlin::<EBig>(Default::default());
    let cases: Vec<Case<FBig>> = (0..SHAPES).flat_map(|k| [(1, 1), (2, 1), (3, 2), (5, 3)].iter().map(move |(n, p)| shaped::<FBig>(k, *n, *p, 0)).collect::<Vec<_>>()).collect();
    ctx.bound(format!("trapdoor adversary on {} relations: every evaluation shifted by 1, alone or with every other evaluation solved to restore one identity, openings forged for all values or for all but one", cases.len()));
    par_for(&cases, |_, c| {
        let k = match s.setup(c, 1) {
            Ok(k) => k,
            Err(_) => return,
        };
        let hon = match s.prove(&k, c, &c.public, &c.aux, 2) {
            Ok(p) => p,
            Err(_) => return,
        };
        let v0 = view(&k.vk, &hon, &c.public);
        let (o, i) = residuals(&v0, &hon.evaluations, &c.public);
        let mut base = hon.clone();
        forge(&k.vk, &mut base, &c.public, None);
        if !o.is_zero() || !i.is_zero() || !s.verify(&k, &base, &c.public).acc() {
            // the adversary no longer speaks the verifier's transcript: it proves nothing
            ctx.count("trapdoor baseline not accepted", 1);
            return;
        }
        ctx.count("trapdoor baselines", 1);
        let n = v0.queries.len();
        let try_ = |e: Vec<FBig>, lie: Option<(&str, bool, FBig)>, what: String| {
            let mut p = hon.clone();
            p.evaluations = e.clone();
            forge(&k.vk, &mut p, &c.public, lie);
            let (o, i) = residuals(&v0, &e, &c.public);
            let want = o.is_zero() && i.is_zero() && lie.is_none();
            let got = s.verify(&k, &p, &c.public);
            ctx.step(1);
            ctx.trace(1);
            ctx.state(&(c.name.as_str(), what.as_str()));
            if got.acc() && !want {
                let key = if lie.is_some() { "accepted-without-opening" } else if !o.is_zero() { "accepted-without-outer-identity" } else { "accepted-without-inner-identity" };
                ctx.violate(key, || format!("{}: {}", c.show(), what));
            }
            ctx.count(if want { "trapdoor consistent" } else { "trapdoor inconsistent" }, 1);
        };
        for a in 0..n {
            for d in [FBig::one(), -FBig::one()] {
                let mut e = hon.evaluations.clone();
                e[a] += d;
                try_(e.clone(), None, format!("eval {} shifted", v0.queries[a].0));
                for b in 0..n {
                    if b == a {
                        continue;
                    }
                    // restore the outer, the inner identity by solving for evaluation b (both are
                    // affine in every single evaluation)
                    for which in 0..2 {
                        let f = |x: FBig| {
                            let mut t = e.clone();
                            t[b] = x;
                            let r = residuals(&v0, &t, &c.public);
                            if which == 0 { r.0 } else { r.1 }
                        };
                        let (f0, f1) = (f(FBig::zero()), f(FBig::one()));
                        if let Some(inv) = (f1 - f0).inverse() {
                            let mut t = e.clone();
                            t[b] = -f0 * inv;
                            let r = residuals(&v0, &t, &c.public);
                            try_(t.clone(), None, format!("eval {} shifted, {} solved", v0.queries[a].0, v0.queries[b].0));
                            if r.0.is_zero() && r.1.is_zero() {
                                for (l, old) in [(a, hon.evaluations[a]), (b, hon.evaluations[b])] {
                                    let lab = v0.queries[l].0.clone();
                                    if t[l] != old {
                                        try_(t.clone(), Some((&lab, false, old)), format!("eval {} shifted, {} solved, {} not opened", v0.queries[a].0, v0.queries[b].0, lab));
                                        if lab == "g_1" || lab == "g_2" {
                                            try_(t.clone(), Some((&lab, true, old)), format!("eval {} shifted, {} solved, degree part of {} not opened", v0.queries[a].0, v0.queries[b].0, lab));
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        ctx.sample("trapdoor", || format!("{}: {} queries", c.show(), n));
    });
    ctx.check(true, "-", || String::new());
}
pub const TABLE: &[(&str, PropFn)] = &[("M01", m01), ("M02", m02), ("M03", pcs::m03), ("dump", dump)];

/// the statements whose transcripts are tabulated
pub fn fs_subjects(level: usize) -> Vec<(String, Subject<FBig>)> {
    fs_shapes(level)
        .into_iter()
        .filter_map(|c| subject(&c).map(|s| (format!("marlin {}", c.name), s)))
        .collect()
}
