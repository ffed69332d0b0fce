use ark_ff::{Field, One, UniformRand, Zero};
use ark_poly::univariate::DensePolynomial;
use ark_poly::{EvaluationDomain, GeneralEvaluationDomain};
use ark_poly_commit::marlin_pc::MarlinKZG10;
use ark_serialize::*;
use mccore::toy::*;
use mccore::*;
use mcfs::{causal_in, Causal, Subject};
use rand_chacha::ChaChaRng;
use rand_core::SeedableRng;
use std::collections::BTreeMap;
use zkp_plonk::{Composer, Plonk, Proof, ProverKey, VerifierKey};

pub mod cheat;

pub type E = EBig;
pub type F = FBig;
pub type PC = MarlinKZG10<E, DensePolynomial<F>>;
pub type P = Plonk<F, D, PC>;
pub type Pk = ProverKey<F, PC>;
pub type Vk = VerifierKey<F, PC>;
pub const TOY: &str = "toy pairing groups with visible discrete logarithms over a 61-bit prime field run the same curve-generic code as real curves; the polynomial commitment is the vendored ark-poly-commit; the hash is a 32-byte digest whose calls are recorded";

/// The hash function of the Fiat-Shamir generator, under the explorer's control.
#[derive(Clone)]
pub struct D(merlin::Transcript);
impl Default for D {
    fn default() -> D {
        D(merlin::Transcript::new(b"digest"))
    }
}
impl digest::Update for D {
    fn update(&mut self, data: impl AsRef<[u8]>) {
        self.0.append_message(b"d", data.as_ref());
    }
}
impl digest::Reset for D {
    fn reset(&mut self) {
        *self = D::default();
    }
}
impl digest::FixedOutput for D {
    type OutputSize = digest::consts::U32;
    fn finalize_into(mut self, out: &mut digest::generic_array::GenericArray<u8, Self::OutputSize>) {
        self.0.challenge_bytes(b"h", out.as_mut_slice());
    }
    fn finalize_into_reset(&mut self, out: &mut digest::generic_array::GenericArray<u8, Self::OutputSize>) {
        self.0.challenge_bytes(b"h", out.as_mut_slice());
        *self = D::default();
    }
}
/// the field elements drawn from a generator seeded by a digest
pub fn drawn(d: &[u8], n: usize) -> Vec<F> {
    let mut s = [0u8; 32];
    s.copy_from_slice(&d[..32]);
    let mut r = ChaChaRng::from_seed(s);
    (0..n).map(|_| F::rand(&mut r)).collect()
}

pub fn ks() -> [F; 4] {
    [F::one(), F::from(7u64), F::from(13u64), F::from(17u64)]
}

/// one call of the composer; variable 0.. are user variables
#[derive(Clone, Debug, Hash, PartialEq)]
pub enum G {
    /// var == val + pi
    Con(usize, i64, i64),
    Eq(usize, usize),
    /// ql*l + qr*r - o + qaux*aux + qc + pi
    Add((usize, i64), (usize, i64), usize, Option<(usize, i64)>, i64, i64),
    /// qm*l*r - o + qaux*aux + qc + pi
    Mul(usize, usize, usize, Option<(usize, i64)>, i64, i64, i64),
}
impl G {
    pub fn sat(&self, v: &[F]) -> bool {
        let f = |x: i64| fi::<F>(x);
        match self {
            G::Con(a, c, pi) => v[*a] == f(*c) + f(*pi),
            G::Eq(a, b) => v[*a] == v[*b],
            G::Add((l, ql), (r, qr), o, aux, qc, pi) => {
                let x = aux.map(|(a, q)| f(q) * v[a]).unwrap_or_else(F::zero);
                (f(*ql) * v[*l] + f(*qr) * v[*r] - v[*o] + x + f(*qc) + f(*pi)).is_zero()
            }
            G::Mul(l, r, o, aux, qm, qc, pi) => {
                let x = aux.map(|(a, q)| f(q) * v[a]).unwrap_or_else(F::zero);
                (f(*qm) * v[*l] * v[*r] - v[*o] + x + f(*qc) + f(*pi)).is_zero()
            }
        }
    }
    /// the same gate with another public input
    pub fn with_pi(&self, p: i64) -> G {
        match self.clone() {
            G::Con(a, c, _) => G::Con(a, c, p),
            G::Add(l, r, o, x, c, _) => G::Add(l, r, o, x, c, p),
            G::Mul(l, r, o, x, m, c, _) => G::Mul(l, r, o, x, m, c, p),
            g => g,
        }
    }
}
#[derive(Clone, Debug, Hash, PartialEq)]
pub struct Prog {
    pub nv: usize,
    pub gates: Vec<G>,
}
impl Prog {
    pub fn sat(&self, v: &[F]) -> bool {
        self.gates.iter().all(|g| g.sat(v))
    }
    pub fn show(&self) -> String {
        format!("{:?}", self.gates)
    }
    pub fn composer(&self, v: &[F]) -> Composer<F> {
        let mut cs = Composer::new();
        let vars: Vec<_> = v.iter().map(|x| cs.alloc_and_assign(*x)).collect();
        let f = |x: i64| fi::<F>(x);
        for g in &self.gates {
            match g {
                G::Con(a, c, pi) => cs.constrain_to_constant(vars[*a], f(*c), f(*pi)),
                G::Eq(a, b) => cs.assert_equal(vars[*a], vars[*b]),
                G::Add((l, ql), (r, qr), o, x, qc, pi) => {
                    cs.create_add_gate((vars[*l], f(*ql)), (vars[*r], f(*qr)), vars[*o], x.map(|(a, q)| (vars[a], f(q))), f(*qc), f(*pi))
                }
                G::Mul(l, r, o, x, qm, qc, pi) => cs.create_mul_gate(vars[*l], vars[*r], vars[*o], x.map(|(a, q)| (vars[a], f(q))), f(*qm), f(*qc), f(*pi)),
            }
        }
        cs
    }
}
pub fn keys(cs: &Composer<F>, seed: u64) -> Result<(Pk, Vk), String> {
    let srs = flat(guard(|| P::setup(cs.size().next_power_of_two().max(1), &mut Coins::seeded(seed))))?;
    flat(guard(|| P::keygen(&srs, cs, ks())))
}
pub fn prove(pk: &Pk, cs: &Composer<F>, seed: u64) -> Result<Proof<F, PC>, String> {
    flat(guard(|| P::prove(pk, cs, &mut Coins::seeded(seed))))
}
pub fn ser<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut v = vec![];
    t.serialize(&mut v).unwrap();
    v
}
pub fn copy(p: &Proof<F, PC>) -> Proof<F, PC> {
    Proof::deserialize(&ser(p)[..]).unwrap()
}
pub fn verify(vk: &Vk, pi: &[F], p: &Proof<F, PC>) -> Verdict {
    Verdict::of(guard(|| P::verify(vk, pi, copy(p))))
}

/// R1CS relations compiled to gates: public inputs first, then the linear combinations of every
/// constraint and its product.
pub struct Compiled;
pub struct Key {
    pub pk: Pk,
    pub vk: Vk,
    pub np: usize,
    pub pi: Vec<F>,
    pub rel: Rel,
}
unsafe impl Sync for Key {}
unsafe impl Send for Key {}
#[derive(Clone)]
pub struct Pr(Vec<u8>);
pub fn compile(rel: &Rel, public: &[F], aux: &[F]) -> Composer<F> {
    let mut cs = Composer::new();
    let mut val: Vec<F> = vec![];
    let mut vars = vec![];
    let one = F::one();
    let zero = F::zero();
    for x in public.iter().chain(aux) {
        val.push(*x);
        vars.push(cs.alloc_and_assign(*x));
    }
    for i in 0..rel.n_pub {
        cs.constrain_to_constant(vars[i], zero, val[i]);
    }
    for con in &rel.cons {
        let mut out = vec![];
        for l in con {
            let c: F = l.iter().filter(|t| t.0 == 0).map(|t| fi::<F>(t.1)).sum();
            let ts: Vec<(usize, F)> = l.iter().filter(|t| t.0 != 0).map(|t| (t.0 - 1, fi::<F>(t.1))).collect();
            if ts.len() == 1 && ts[0].1 == one && c.is_zero() {
                out.push((vars[ts[0].0], val[ts[0].0]));
                continue;
            }
            if ts.is_empty() {
                let v = cs.alloc_and_assign(c);
                cs.constrain_to_constant(v, c, zero);
                out.push((v, c));
                continue;
            }
            // three terms per gate: left, right and the extra wire
            let mut acc = None;
            for ch in ts.chunks(2) {
                let (x, cx) = ch[0];
                let (y, cy) = *ch.get(1).unwrap_or(&(x, zero));
                let mut s = cx * val[x] + cy * val[y];
                let (a, k) = match acc {
                    None => {
                        s += c;
                        (None, c)
                    }
                    Some((v, w)) => {
                        s += w;
                        (Some((v, one)), zero)
                    }
                };
                let o = cs.alloc_and_assign(s);
                cs.create_add_gate((vars[x], cx), (vars[y], cy), o, a, k, zero);
                acc = Some((o, s));
            }
            out.push(acc.unwrap());
        }
        cs.create_mul_gate(out[0].0, out[1].0, out[2].0, None, one, zero, zero);
    }
    cs
}
impl Scheme<F> for Compiled {
    type Key = Key;
    type Proof = Pr;
    fn setup(&self, c: &Case<F>, seed: u64) -> Result<Key, String> {
        let cs = compile(&c.rel, &c.public, &c.aux);
        let (pk, vk) = keys(&cs, seed)?;
        Ok(Key { pk, vk, np: c.rel.n_pub, pi: cs.public_inputs().to_vec(), rel: c.rel.clone() })
    }
    fn prove(&self, k: &Key, c: &Case<F>, p: &[F], a: &[F], seed: u64) -> Result<Pr, String> {
        prove(&k.pk, &compile(&c.rel, p, a), seed).map(|p| Pr(ser(&p)))
    }
    fn verify(&self, k: &Key, pr: &Pr, p: &[F]) -> Verdict {
        let mut pi: Vec<F> = p.iter().map(|x| -*x).collect();
        if p.len() == k.np {
            pi = compile(&k.rel, p, &vec![F::zero(); k.rel.n_aux]).public_inputs().to_vec();
        } else {
            pi.extend_from_slice(&k.pi[k.np..]);
        }
        verify(&k.vk, &pi, &Proof::deserialize(&pr.0[..]).unwrap())
    }
    fn bytes(&self, p: &Pr) -> Vec<u8> {
        p.0.clone()
    }
    fn parse(&self, _: &Pr, b: &[u8]) -> Option<Pr> {
        Proof::<F, PC>::deserialize(b).ok().map(|p| Pr(ser(&p)))
    }
    fn schema(&self) -> Option<&'static str> {
        Some(SCHEMA)
    }
    fn benign(&self, what: &str) -> bool {
        // an opening without a blinding value and one with blinding value zero mean the same
        // (and the evaluations that could accompany it are not used)
        what.starts_with("option [2, ") && what.ends_with("filled with zero")
    }
}
pub const SCHEMA: &str = "([[(w?w)]][w]([(w?w)]?w))";

/// every gate over `nv` variables with small coefficients
pub fn alphabet(nv: usize, coef: &[i64], consts: &[i64]) -> Vec<G> {
    let mut v = vec![];
    for a in 0..nv {
        for &c in consts {
            for &p in consts {
                v.push(G::Con(a, c, p));
            }
        }
        for b in 0..nv {
            v.push(G::Eq(a, b));
        }
    }
    let mut aux: Vec<Option<(usize, i64)>> = vec![None];
    for a in 0..nv {
        aux.push(Some((a, *coef.last().unwrap())));
    }
    for l in 0..nv {
        for r in 0..nv {
            for o in 0..nv {
                for x in &aux {
                    for &qc in consts {
                        for &pi in consts {
                            for &q1 in coef {
                                v.push(G::Mul(l, r, o, *x, q1, qc, pi));
                                for &q2 in coef {
                                    v.push(G::Add((l, q1), (r, q2), o, *x, qc, pi));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    v
}
/// a short list touching every argument of every gate form
pub fn letters(full: bool) -> Vec<G> {
    let mut v = vec![
        G::Con(0, 1, 0),
        G::Con(1, 0, 1),
        G::Eq(0, 1),
        G::Eq(2, 1),
        G::Add((0, 1), (1, 1), 2, None, 0, 0),
        G::Add((1, 2), (2, -1), 0, None, 1, 0),
        G::Add((0, 1), (2, 0), 1, Some((1, -1)), 0, 1),
        G::Mul(0, 1, 2, None, 1, 0, 0),
        G::Mul(1, 1, 0, None, 1, 0, 0),
        G::Mul(2, 0, 1, Some((1, 2)), -1, 0, 0),
    ];
    if full {
        v.extend(vec![
            G::Con(2, 1, 1),
            G::Eq(0, 0),
            G::Add((2, 1), (2, 1), 2, None, 0, 0),
            G::Add((0, 0), (0, 0), 1, Some((2, 1)), 0, 0),
            G::Mul(2, 2, 2, None, 1, 0, 0),
            G::Mul(0, 2, 1, None, 0, 1, 1),
        ]);
    }
    v
}
/// One program, every assignment: the real prover's output is accepted exactly when satisfied.
pub fn decide(ctx: &Ctx, p: &Prog, vals: &[i64], want: Want) {
    let base: Vec<F> = vec![F::zero(); p.nv];
    let (pk, vk) = match keys(&p.composer(&base), 11) {
        Ok(k) => k,
        Err(e) => {
            if want == Want::Complete {
                ctx.violate(&format!("keygen-fails {}", site(&e)), || format!("{}: {}", p.show(), e));
            }
            return;
        }
    };
    let dom: Vec<F> = vals.iter().map(|v| fi::<F>(*v)).collect();
    for v in tuples(&dom, p.nv) {
        let sat = p.sat(&v);
        if (want == Want::Complete) != sat {
            continue;
        }
        ctx.step(1);
        ctx.state(&(p, vs(&v)));
        let cs = p.composer(&v);
        let r = prove(&pk, &cs, 3);
        match (r, want) {
            (Err(e), Want::Complete) => ctx.violate(&format!("prover-fails {}", site(&e)), || format!("{} at {}: {}", p.show(), vs(&v), e)),
            (Err(_), Want::Sound) => ctx.count("prover refused bad witness", 1),
            (Ok(pr), _) => {
                ctx.trace(1);
                let g = verify(&vk, cs.public_inputs(), &pr);
                if want == Want::Complete {
                    ctx.check(g.acc(), "honest-proof-rejected", || format!("{} at {}: {}", p.show(), vs(&v), g.show()));
                } else {
                    ctx.check(!g.acc(), "unsatisfying-witness", || format!("{} at {}", p.show(), vs(&v)));
                }
            }
        }
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Want {
    Complete,
    Sound,
}
pub fn programs(ctx: &Ctx) -> Vec<Prog> {
    let mut v: Vec<Prog> = vec![];
    for g in alphabet(2, ctx.b(&[-1, 2][..], &[-1, 0, 1, 2][..]), &[0, 1]) {
        v.push(Prog { nv: 2, gates: vec![g] });
    }
    let n1 = v.len();
    let l2 = letters(true);
    for a in &l2 {
        for b in &l2 {
            v.push(Prog { nv: 3, gates: vec![a.clone(), b.clone()] });
        }
    }
    let l3 = letters(ctx.thorough());
    for t in tuples(&l3, 3) {
        v.push(Prog { nv: 3, gates: t });
    }
    let n3 = v.len();
    let l4 = ctx.b(letters(false).into_iter().step_by(3).collect::<Vec<_>>(), letters(false));
    for t in tuples(&l4, ctx.b(5, 4)) {
        v.push(Prog { nv: 3, gates: t });
    }
    ctx.bound(format!(
        "all {} one-gate programs over 2 variables; all programs of 2 gates over {} gates and of 3 gates over {} gates (3 variables); all programs of {} gates over {} gates ({}); every assignment of a small box",
        n1,
        l2.len(),
        l3.len(),
        ctx.b(5, 4),
        l4.len(),
        v.len() - n3
    ));
    v
}
/// the permutation polynomials tie together exactly the places holding the same variable
pub fn wiring(ctx: &Ctx, p: &Prog) {
    // distinct values tell which place holds which variable
    let v: Vec<F> = (0..p.nv).map(|i| F::from(1000 + i as u64)).collect();
    let cs = p.composer(&v);
    let k = ks();
    let (s, w) = match (guard(|| cs.compose(&k)), guard(|| cs.synthesize())) {
        (Ok(Ok(s)), Ok(Ok(w))) => (s, w),
        _ => {
            ctx.violate("compose-fails", || p.show());
            return;
        }
    };
    let n = s.size();
    let dom = GeneralEvaluationDomain::<F>::new(n).unwrap();
    let mut at: BTreeMap<u64, usize> = BTreeMap::new();
    let mut places = vec![];
    for (j, wj) in [&w.w_0, &w.w_1, &w.w_2, &w.w_3].iter().enumerate() {
        for i in 0..n {
            at.insert(to_w(dom.element(i) * k[j]), places.len());
            places.push(wj[i]);
        }
    }
    let next: Option<Vec<usize>> = [&s.sigma_0, &s.sigma_1, &s.sigma_2, &s.sigma_3].iter().flat_map(|x| x.iter()).map(|x| at.get(&to_w(*x)).cloned()).collect();
    ctx.step(1);
    let next = match next {
        Some(x) => x,
        None => {
            ctx.violate("wiring-not-a-permutation", || p.show());
            return;
        }
    };
    let mut cyc = vec![usize::MAX; next.len()];
    let mut hit = vec![false; next.len()];
    for i in 0..next.len() {
        if std::mem::replace(&mut hit[next[i]], true) {
            ctx.violate("wiring-not-a-permutation", || p.show());
            return;
        }
    }
    for i in 0..next.len() {
        let mut j = i;
        while cyc[j] == usize::MAX {
            cyc[j] = i;
            j = next[j];
        }
    }
    let mut of: BTreeMap<u64, usize> = BTreeMap::new();
    for (i, x) in places.iter().enumerate() {
        if x.is_zero() {
            // unused place: must not be tied to a variable
            ctx.check((0..places.len()).all(|j| cyc[j] != cyc[i] || places[j].is_zero()), "wiring-ties-unused-place", || p.show());
            continue;
        }
        let c = *of.entry(to_w(*x)).or_insert(cyc[i]);
        ctx.check(c == cyc[i], "wiring-does-not-tie-variable", || format!("{}: variable valued {} sits in two cycles", p.show(), fs(x)));
    }
    let mut seen: BTreeMap<usize, u64> = BTreeMap::new();
    for (v, c) in of {
        ctx.check(seen.insert(c, v).is_none(), "wiring-ties-different-variables", || p.show());
    }
}
pub fn to_w(x: F) -> u64 {
    val(&x)
}
pub fn p01(ctx: &Ctx) {
    ctx.assume(TOY);
    let ps = programs(ctx);
    par_for(&ps, |_, p| {
        decide(ctx, p, if p.nv == 2 { &[-1, 0, 1, 2] } else { ctx.b(&[0, 1, 2][..], &[-1, 0, 1, 2][..]) }, Want::Complete);
        wiring(ctx, p);
    });
    let c = Compiled;
    let cases = sweep::<F>(ctx.b(20, 32), &[0, 1, 2, 3, 4, 7, 8]);
    ctx.bound(format!("{} relations of 8 shapes compiled to gates (1..{} constraints, 0..8 public inputs)", cases.len(), ctx.b(20, 32)));
    completeness(ctx, &c, &cases, &[1]);
    let big = ladder::<F>(ctx.b(8, 11), &[0, 2, 6]);
    ctx.bound(format!("{} relations with around 2^5..2^{} constraints or public inputs", big.len(), ctx.b(8, 11)));
    completeness(ctx, &c, &big, &[1]);
    double_sweep(ctx, &c, true);
    let cs = single_cases::<F>(true, &[-1, 0, 1, 2]);
    ctx.bound(format!("{} (relation, satisfying assignment) pairs of one-constraint relations over a 9-term alphabet", cs.len()));
    completeness(ctx, &c, &cs, &[1]);
    // one universal string for every size it admits, down to exactly its own degree
    for deg in [1usize, 2, 4, 8, 16, 33] {
        let srs = P::setup(deg, &mut Coins::seeded(5)).unwrap();
        for c in cases.iter() {
            let cs = compile(&c.rel, &c.public, &c.aux);
            let n = cs.size().max(1).next_power_of_two();
            if n > deg.max(1) {
                continue;
            }
            ctx.step(1);
            match flat(guard(|| P::keygen(&srs, &cs, ks()))) {
                Err(e) => ctx.violate(&format!("keygen-fails {}", site(&e)), || format!("{} under parameters of degree {}: {}", c.show(), deg, e)),
                Ok((pk, vk)) => {
                    let v = match prove(&pk, &cs, 4) {
                        Err(e) => Verdict::Crash(e),
                        Ok(pr) => verify(&vk, cs.public_inputs(), &pr),
                    };
                    ctx.trace(1);
                    ctx.check(v.acc(), "honest-proof-rejected", || format!("{} under parameters of degree {}: {}", c.show(), deg, v.show()));
                }
            }
        }
    }
    ctx.bound("universal strings of degree 1, 2, 4, 8, 16, 33 shared by every relation that fits");
}
pub fn p02(ctx: &Ctx) {
    ctx.assume(TOY);
    let ps = programs(ctx);
    par_for(&ps, |_, p| decide(ctx, p, if p.nv == 2 { &[-1, 0, 1, 2] } else { &[0, 1, 2] }, Want::Sound));
    let c = Compiled;
    let cases = sweep::<F>(ctx.b(6, 10), &[0, 1, 2, 3, 4]);
    soundness(ctx, &c, &cases, &[1], &Sound { watch: Watch::Accepts, bad_witness: true, bad_public: true, tamper: true, max_tamper: usize::MAX });
    ctx.bound(format!("all single-variable corruptions of witness and publics, all single-position and list alterations of the proof, of {} relations", cases.len()));
    single_unsound(ctx, &c, true, &[-1, 0, 1, 2]);
    double_sweep(ctx, &c, false);
    ctx.bound("all violating assignments over {-1,0,1,2} of all 729 one-constraint relations, real prover");
    let xs: Vec<Case<F>> = (0..SHAPES).flat_map(|k| (1..=3).flat_map(move |n| (1..=2).map(move |p| shaped::<F>(k, n, p, 0)))).collect();
    cross_key(ctx, &c, &xs);
    ctx.bound(format!("all ordered pairs of {} relations: proof of one checked under the key of the other", xs.len()));
    cheat::swapped(ctx);
    cheat::quotients(ctx);
    cheat::openings(ctx);
    let sub: Vec<Subject<F>> = cheat::targets(ctx.b(4, 16)).iter().filter_map(|(p, v)| subject(p, v)).collect();
    let ss: Vec<(String, Subject<F>)> = fs_subjects(ctx.b(1, 2)).into_iter().map(|(k, s)| (k.replace("plonk", "plonk-seeds"), s)).collect();
    mcfs::all_decide(ctx, &ss);
    causal_in(ctx, &sub, &Causal { window: 100, nearest: 10 }, |_, _| false, |c| drawn(c, 2));
}
pub fn subject(p: &Prog, v: &[F]) -> Option<Subject<F>> {
    let cs = p.composer(v);
    let (pk, vk) = keys(&cs, 11).ok()?;
    let (pk, vk) = (Sync_(pk), Sync_(vk));
    let (p1, v1) = (p.clone(), v.to_vec());
    Some(Subject {
        name: p.show(),
        schema: SCHEMA,
        publics: cs.public_inputs().to_vec(),
        prove: Box::new(move |seed| prove(pk.get(), &p1.composer(&v1), seed).map(|p| ser(&p))),
        verify: Box::new(move |b, pi| match Proof::<F, PC>::deserialize(b) {
            Ok(p) => verify(vk.get(), pi, &p),
            Err(_) => Verdict::Reject("unparsable".into()),
        }),
    })
}
pub struct Sync_<T>(T);
unsafe impl<T> Sync for Sync_<T> {}
unsafe impl<T> Send for Sync_<T> {}
impl<T> Sync_<T> {
    fn get(&self) -> &T {
        &self.0
    }
}
pub fn dump(_: &Ctx) {
    for (p, v) in cheat::targets(1) {
        mcfs::dump(&subject(&p, &v).unwrap());
    }
}
pub const TABLE: &[(&str, PropFn)] = &[("P01", p01), ("P02", p02), ("DUMP", dump)];

/// the programs whose transcripts are tabulated
pub fn fs_subjects(level: usize) -> Vec<(String, Subject<F>)> {
    cheat::targets([3, 8, 24][level]).iter().enumerate().filter_map(|(k, (p, x))| subject(p, x).map(|s| (format!("plonk {}", k), s))).collect()
}
