use ark_ff::{Field, One, Zero};
use ark_serialize::*;
use mccore::toy::*;
use mccore::*;
use mcfs::{causal, Causal, Subject};
use merlin::mc::{logged, Ev};
use zkp_spartan::polynomial::evaluate_mle;
use zkp_spartan::{nizk, snark};

pub type E = EBig;
pub type F = FBig;
pub const TOY: &str = "toy group with visible discrete logarithms over a 61-bit prime field runs the same curve-generic code as real curves; the Fiat-Shamir hash is the real merlin";

macro_rules! dotp { () => { "([w][w]wwww)" }; }
macro_rules! sc { () => { "([w][w][(ww[w]ww)])" }; }
macro_rules! sat { () => { concat!("([w]", sc!(), sc!(), dotp!(), "(wwww)((www)(www[w]))(ww)(ww)w)") }; }
macro_rules! pc { () => { "([([[w]][w][w])]([w][w][w]))" }; }
pub const NIZK: &str = concat!(sat!(), "([w][w])");
pub const SNARK: &str = concat!(
    sat!(), "(www)((", pc!(), pc!(), "([w][w])(w[w][w]w)(w[w][w]w))(", dotp!(), dotp!(), dotp!(), "([w][w])([w][w]w)([w][w]w)[w])[w])"
);

pub fn ser<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut v = vec![];
    t.serialize(&mut v).unwrap();
    v
}
#[cfg(feature = "cheat")]
pub mod cheat;
pub struct Snark;
pub struct SKey {
    pk: snark::ProveKey<E>,
    vk: snark::VerifyKey<E>,
    h: [F; 3],
}
impl Scheme<F> for Snark {
    type Key = SKey;
    type Proof = snark::Proof<E>;
    fn setup(&self, c: &Case<F>, seed: u64) -> Result<SKey, String> {
        let p = flat(guard(|| snark::generate_random_parameters::<E, _, _>(c.blank(), &mut Coins::seeded(seed))))?;
        let h = [p.r1cs.r1cs_to_hash(), p.params.param_to_hash(), p.encode_comm.encode_to_hash()];
        let (pk, vk) = p.keypair();
        Ok(SKey { pk, vk, h })
    }
    fn prove(&self, k: &SKey, c: &Case<F>, p: &[F], a: &[F], seed: u64) -> Result<Self::Proof, String> {
        flat(guard(|| snark::create_random_proof(&k.pk, c.inst_with(p, a), k.h[0], k.h[1], k.h[2], &mut Coins::seeded(seed))))
    }
    fn verify(&self, k: &SKey, pr: &Self::Proof, p: &[F]) -> Verdict {
        Verdict::of(guard(|| snark::verify_proof(&k.vk, pr, p, k.h[0], k.h[1], k.h[2])))
    }
    fn bytes(&self, pr: &Self::Proof) -> Vec<u8> {
        ser(pr)
    }
    fn parse(&self, _: &Self::Proof, b: &[u8]) -> Option<Self::Proof> {
        CanonicalDeserialize::deserialize(b).ok()
    }
    fn schema(&self) -> Option<&'static str> {
        Some(SNARK)
    }
}
pub struct Nizk;
pub struct NKey {
    pk: nizk::ProveKey<E>,
    vk: nizk::VerifyKey<E>,
    h: [F; 2],
}
impl Scheme<F> for Nizk {
    type Key = NKey;
    type Proof = nizk::Proof<E>;
    fn setup(&self, c: &Case<F>, seed: u64) -> Result<NKey, String> {
        let p = flat(guard(|| nizk::generate_random_parameters::<E, _, _>(c.blank(), &mut Coins::seeded(seed))))?;
        let h = [p.r1cs.r1cs_to_hash(), p.params.param_to_hash()];
        let (pk, vk) = p.keypair();
        Ok(NKey { pk, vk, h })
    }
    fn prove(&self, k: &NKey, c: &Case<F>, p: &[F], a: &[F], seed: u64) -> Result<Self::Proof, String> {
        flat(guard(|| nizk::create_random_proof(&k.pk, c.inst_with(p, a), k.h[0], k.h[1], &mut Coins::seeded(seed))))
    }
    fn verify(&self, k: &NKey, pr: &Self::Proof, p: &[F]) -> Verdict {
        Verdict::of(guard(|| nizk::verify_proof(&k.vk, pr, p, k.h[0], k.h[1])))
    }
    fn bytes(&self, pr: &Self::Proof) -> Vec<u8> {
        ser(pr)
    }
    fn parse(&self, _: &Self::Proof, b: &[u8]) -> Option<Self::Proof> {
        CanonicalDeserialize::deserialize(b).ok()
    }
    fn schema(&self) -> Option<&'static str> {
        Some(NIZK)
    }
}
pub fn complete<S: Scheme<F>>(ctx: &Ctx, s: &S, max: (usize, usize), sizes: (&[usize], &[usize]), full: (bool, bool)) {
    ctx.assume(TOY);
    let n = ctx.b(max.0, max.1);
    let pubs: &[usize] = &[0, 1, 2, 3, 4, 7];
    let mut cases = sweep::<F>(n, pubs);
    for k in 0..SHAPES {
        for n in ctx.b(sizes.0, sizes.1) {
            cases.push(shaped(k, *n, 2, 0));
        }
    }
    // statements whose values include zeros, at every position
    for k in 0..SHAPES {
        for c in [shaped::<F>(k, 3, 3, 0), shaped::<F>(k, 5, 2, 1)] {
            for p in zeroed(&c) {
                cases.push(p);
            }
        }
    }
    ctx.bound(format!("8 relation shapes x 0..={} constraints x publics {:?} x 3 allocation orders, sizes {:?}, statements with zeros at every public position", n, pubs, ctx.b(sizes.0, sizes.1)));
    completeness(ctx, s, &cases, ctx.b(&[1][..], &[1, 2][..]));
    let large = ladder::<F>(ctx.b(11, 13), &[0, 2, 6]);
    ctx.bound(format!("{} relations with around 2^5..2^{} constraints or public inputs", large.len(), ctx.b(11, 13)));
    completeness(ctx, s, &large, &[1]);
    double_sweep(ctx, s, true);
    let cs = single_cases::<F>(ctx.b(full.0, full.1), ctx.b(&[-2, -1, 0, 1, 2][..], &[-2, -1, 0, 1, 2, 3][..]));
    ctx.bound(format!("{} (relation, satisfying assignment) pairs of one-constraint relations", cs.len()));
    completeness(ctx, s, &cs, &[1]);
}
/// the relation extended by free public inputs holding zeros among other values
pub fn zeroed(c: &Case<F>) -> Vec<Case<F>> {
    let mut out = vec![];
    for vals in tuples(&[0i64, 5], 2) {
        let mut d = c.clone();
        // two more public inputs, tied by w*1 = p
        let (np, na) = (c.public.len(), c.aux.len());
        let shift = |l: &L| -> L { l.iter().map(|(v, k)| (if *v > np { v + 2 } else { *v }, *k)).collect() };
        d.rel.cons = c.rel.cons.iter().map(|x| [shift(&x[0]), shift(&x[1]), shift(&x[2])]).collect();
        d.rel.n_pub = np + 2;
        d.rel.n_aux = na + 2;
        for (i, v) in vals.iter().enumerate() {
            d.public.push(fi(*v));
            d.aux.push(fi(*v));
            d.rel.cons.push([vec![(1 + np + 2 + na + i, 1)], vec![(0, 1)], vec![(1 + np + i, 1)]]);
        }
        d.name = format!("{}+publics{:?}", c.name, vals);
        assert!(d.sat_with(&d.public, &d.aux));
        out.push(d);
    }
    out
}
pub fn subject<S: Scheme<F> + Sync + 'static>(s: &'static S, c: &Case<F>) -> Option<Subject<F>>
where
    S::Key: Send + 'static,
    S::Proof: Send + 'static,
{
    let k = std::sync::Arc::new(s.setup(c, 3).ok()?);
    let like = s.prove(&k, c, &c.public, &c.aux, 4).ok()?;
    let (c1, k1) = (c.clone(), k.clone());
    Some(Subject {
        name: c.show(),
        schema: s.schema()?,
        publics: c.public.clone(),
        prove: Box::new(move |seed| s.prove(&k1, &c1, &c1.public, &c1.aux, seed).map(|p| s.bytes(&p))),
        verify: Box::new(move |b, p| match s.parse(&like, b) {
            Some(pr) => s.verify(&k, &pr, p),
            None => Verdict::Reject("unparsable".into()),
        }),
    })
}
pub fn sound<S: Scheme<F> + Sync + 'static>(ctx: &Ctx, s: &'static S, n: (usize, usize), small: &[(usize, usize, usize)], o: Causal)
where
    S::Key: Send + 'static,
    S::Proof: Send + 'static,
{
    ctx.assume(TOY);
    let mut cases = sweep::<F>(ctx.b(n.0, n.1), &[0, 1, 2, 3]);
    cases.extend(zeroed(&shaped(0, 2, 1, 0)));
    soundness(ctx, s, &cases, &[1], &Sound { watch: Watch::Accepts, bad_witness: true, bad_public: true, tamper: true, max_tamper: ctx.b(400, usize::MAX) });
    ctx.bound(format!("all single-variable corruptions of witness and publics, single-position proof mutations and list restructurings of {} relations", cases.len()));
    single_unsound(ctx, s, ctx.b(false, true), &[-1, 0, 1, 2]);
    double_sweep(ctx, s, false);
    ctx.bound("all violating assignments over {-1,0,1,2} of all one-constraint relations, real prover");
    let xs: Vec<Case<F>> = (0..SHAPES).flat_map(|k| (1..=3).flat_map(move |n| (1..=2).map(move |p| shaped::<F>(k, n, p, 0)))).collect();
    cross_key(ctx, s, &xs);
    let sub: Vec<Subject<F>> = small.iter().filter_map(|(k, n, p)| subject(s, &shaped::<F>(*k, *n, *p, 0))).collect();
    causal(ctx, &sub, &o);
    mcfs::all_decide(ctx, &fs_subjects(ctx.b(1, 2), s.schema() == Snark.schema()));
}
/// The real prover run with the matrices of one relation and the hashes of another.
pub fn xs() -> Vec<Case<F>> {
    (0..SHAPES).flat_map(|k| (1..=4).flat_map(move |n| (0..=2).map(move |p| shaped::<F>(k, n, p, 0)))).collect()
}
pub fn foreign_nizk(ctx: &Ctx) {
    let xs = xs();
    let ks: Vec<NKey> = xs.iter().filter_map(|c| Nizk.setup(c, 3).ok()).collect();
    if ks.len() != xs.len() {
        ctx.count("setup refused", 1);
        return;
    }
    let jobs: Vec<(usize, usize)> = (0..xs.len()).flat_map(|i| (0..xs.len()).map(move |j| (i, j))).filter(|(i, j)| i != j).collect();
    par_for(&jobs, |_, (i, j)| {
        let (a, b) = (&xs[*i], &xs[*j]);
        if a.rel.cons.len().next_power_of_two() != b.rel.cons.len().next_power_of_two() || a.public.len() != b.public.len() {
            return;
        }
        let mut aux = a.aux.clone();
        aux.resize(b.rel.n_aux, F::zero());
        if b.sat_with(&a.public, &aux) {
            return;
        }
        if a.aux.len().max(a.public.len() + 1).next_power_of_two() != b.aux.len().max(b.public.len() + 1).next_power_of_two() || a.rel.cons == b.rel.cons {
            return;
        }
        let (ka, kb) = (&ks[*i], &ks[*j]);
        let pr = match flat(guard(|| nizk::create_random_proof(&ka.pk, a.inst(), kb.h[0], kb.h[1], &mut Coins::seeded(6)))) {
            Ok(p) => p,
            Err(_) => return,
        };
        ctx.step(1);
        ctx.trace(1);
        ctx.state(&("foreign", *i, *j));
        let v = Nizk.verify(kb, &pr, &a.public);
        ctx.check(!v.acc(), "proof-accepted-under-another-relation", || format!("{} proved with the hashes of {}", a.show(), b.show()));
        // replace the evaluation point by one where the matrices of b evaluate as those of a do
        let (rx, ry) = pr.r.clone();
        let (_, log) = logged(|| Nizk.verify(kb, &pr, &a.public));
        let ch: Vec<F> = log.iter().filter_map(|e| if let Ev::Challenge(l, c) = e { if l.starts_with(b"challenege") { F::from_random_bytes(c) } else { None } } else { None }).collect();
        if ch.len() != 3 {
            ctx.count("transcript not understood", 1);
            return;
        }
        let comb = |k: &NKey, rx: &Vec<F>, ry: &Vec<F>| {
            let r = &k.vk.r1cs;
            ch[0] * evaluate_mle::<E>(&r.a_matrix, rx, ry) + ch[1] * evaluate_mle::<E>(&r.b_matrix, rx, ry) + ch[2] * evaluate_mle::<E>(&r.c_matrix, rx, ry)
        };
        let want = comb(ka, &rx, &ry);
        for v in 0..rx.len() + ry.len() {
            let at = |t: F| {
                let (mut x, mut y) = (rx.clone(), ry.clone());
                if v < x.len() {
                    x[v] = t
                } else {
                    y[v - rx.len()] = t
                }
                (x, y)
            };
            let (x0, y0) = at(F::zero());
            let (x1, y1) = at(F::one());
            let (f0, f1) = (comb(kb, &x0, &y0), comb(kb, &x1, &y1));
            if f0 == f1 {
                continue;
            }
            let t = (want - f0) * (f1 - f0).inverse().unwrap();
            let mut q = pr.clone();
            q.r = at(t);
            ctx.step(1);
            ctx.trace(1);
            let v = Nizk.verify(kb, &q, &a.public);
            ctx.check(!v.acc(), "evaluation-point-chosen-by-prover", || format!("{} proved with the hashes of {}, evaluation point refitted", a.show(), b.show()));
        }
    });
    ctx.bound("all ordered pairs of equally padded relations: proof of the one for the hashes of the other, as is and with every coordinate of the evaluation point refitted");
}
pub fn foreign_snark(ctx: &Ctx) {
    let xs = xs();
    let ks: Vec<SKey> = xs.iter().filter_map(|c| Snark.setup(c, 3).ok()).collect();
    if ks.len() != xs.len() {
        ctx.count("setup refused", 1);
        return;
    }
    let jobs: Vec<(usize, usize)> = (0..xs.len()).flat_map(|i| (0..xs.len()).map(move |j| (i, j))).filter(|(i, j)| i != j).collect();
    par_for(&jobs, |_, (i, j)| {
        let (a, b) = (&xs[*i], &xs[*j]);
        if a.public.len() != b.public.len() || a.rel.cons == b.rel.cons {
            return;
        }
        let (ka, kb) = (&ks[*i], &ks[*j]);
        for swap in [0u8, 1] {
            // prover keeps its matrices; commitment and hashes are those of b
            let pk = snark::ProveKey::<E> {
                params: ka.pk.params.clone(),
                r1cs: ka.pk.r1cs.clone(),
                encode: if swap == 0 { ka.pk.encode.clone() } else { kb.pk.encode.clone() },
                encode_comm: kb.pk.encode_comm.clone(),
            };
            let pr = match flat(guard(|| snark::create_random_proof(&pk, a.inst(), kb.h[0], kb.h[1], kb.h[2], &mut Coins::seeded(6)))) {
                Ok(p) => p,
                Err(_) => continue,
            };
            ctx.step(1);
            ctx.trace(1);
            ctx.state(&("foreign", *i, *j, swap));
            let v = Snark.verify(kb, &pr, &a.public);
            ctx.check(!v.acc(), "proof-accepted-under-another-relation", || format!("{} proved with the hashes of {} (encoding of {})", a.show(), b.show(), if swap == 0 { "its own" } else { "the other" }));
        }
    });
    ctx.bound("all ordered pairs of relations: matrices of the one, hashes and committed encoding of the other");
}
pub fn s01(ctx: &Ctx) {
    complete(ctx, &Snark, (8, 14), (&[15, 16, 17, 31, 32, 33], &[15, 16, 17, 31, 32, 33, 63, 64, 65]), (false, true));
}
pub fn s02(ctx: &Ctx) {
    sound(ctx, &Snark, (3, 5), ctx.b(&[(0, 1, 1)][..], &[(0, 1, 1), (1, 2, 1), (2, 2, 2)][..]), Causal { window: ctx.b(6, 24), nearest: ctx.b(3, 8) });
    foreign_snark(ctx);
    let cs: Vec<Case<F>> = sweep::<F>(ctx.b(3, 6), &[1, 2]).into_iter().filter(|c| !c.rel.cons.is_empty()).collect();
    #[cfg(feature = "cheat")]
    cheat::provers(ctx, &cs);
}
pub fn s03(ctx: &Ctx) {
    complete(ctx, &Nizk, (16, 24), (&[15, 17, 31, 32, 33, 63, 64, 65], &[31, 32, 33, 63, 64, 65, 127, 128, 129]), (true, true));
}
pub fn s04(ctx: &Ctx) {
    sound(ctx, &Nizk, (5, 8), ctx.b(&[(0, 1, 1), (1, 2, 1)][..], &[(0, 1, 1), (1, 2, 1), (0, 4, 1), (3, 2, 2)][..]), Causal { window: ctx.b(20, 200), nearest: ctx.b(6, 12) });
    foreign_nizk(ctx);
}
pub fn dump(_: &Ctx) {
    mcfs::dump(&subject(&Nizk, &shaped::<F>(0, 4, 1, 0)).unwrap());
    mcfs::dump(&subject(&Snark, &shaped::<F>(0, 2, 1, 0)).unwrap());
}
pub const TABLE: &[(&str, PropFn)] = &[("S01", s01), ("S02", s02), ("S03", s03), ("S04", s04), ("dump", dump)];

/// the statements whose transcripts are tabulated
pub fn fs_subjects(level: usize, snark: bool) -> Vec<(String, Subject<F>)> {
    fs_shapes(level)
        .into_iter()
        .filter(|c| !snark || c.rel.cons.len() < if level > 1 { 6 } else { 5 })
        .filter_map(|c| {
            if snark {
                subject(&Snark, &c).map(|s| (format!("spartan-snark {}", c.name), s))
            } else {
                subject(&Nizk, &c).map(|s| (format!("spartan-nizk {}", c.name), s))
            }
        })
        .collect()
}
