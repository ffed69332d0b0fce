#[cfg(feature = "cheat")]
pub mod cheat;
use ark_serialize::*;
use mccore::toy::*;
use mccore::*;
use mcfs::{causal_but, Causal, Subject};
use std::sync::Arc;
use zkp_libra::circuit::Circuit;
use zkp_libra::libra_linear_gkr::{LayerProof, LinearGKRProof};
use zkp_libra::libra_zk_linear_gkr::ZKLinearGKRProof;
use zkp_libra::params::Parameters;
use zkp_libra::sumcheck::SumCheckProof;

pub type E = EBig;
pub type F = FBig;
pub const TOY: &str = "toy group with visible discrete logarithms over a 61-bit prime field runs the same curve-generic code as real curves; the Fiat-Shamir hash is the real merlin";

pub fn ser<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut v = vec![];
    t.serialize(&mut v).unwrap();
    v
}
pub fn circuit(c: &Lc) -> Circuit {
    Circuit::new(c.ni, c.na, &c.layers)
}
/// the plain argument: the verifier knows the whole input layer
pub struct Plain;
pub fn enc(p: &LinearGKRProof<E>) -> Vec<u8> {
    let mut v = ser(&(p.proofs.len() as u64));
    for l in &p.proofs {
        v.extend(ser(&l.proof_phase_one));
        v.extend(ser(&l.proof_phase_two));
    }
    v
}
pub fn dec(mut b: &[u8]) -> Option<LinearGKRProof<E>> {
    let n = u64::deserialize(&mut b).ok()?;
    let mut proofs = vec![];
    for _ in 0..n.min(1000) {
        let proof_phase_one = SumCheckProof::deserialize(&mut b).ok()?;
        let proof_phase_two = SumCheckProof::deserialize(&mut b).ok()?;
        proofs.push(LayerProof { proof_phase_one, proof_phase_two });
    }
    Some(LinearGKRProof { proofs })
}
pub fn bit(r: Result<bool, String>) -> Verdict {
    Verdict::of(r.map(Ok::<bool, String>))
}
impl LScheme<F> for Plain {
    fn prove(&self, c: &LCase<F>, named: &Lc, _: u64) -> Result<(Vec<u8>, Stmt<F>), String> {
        guard(|| {
            let h = circuit(named).circuit_to_hash::<E>();
            let (p, out) = LinearGKRProof::<E>::prover(&circuit(&c.c), &c.inputs[0], &c.aux[0], h);
            (enc(&p), Stmt { outputs: vec![out], inputs: vec![c.c.base(&c.aux[0], &c.inputs[0])] })
        })
    }
    fn verify(&self, c: &Lc, b: &[u8], s: &Stmt<F>) -> Verdict {
        let (o, i) = match (s.outputs.first(), s.inputs.first()) {
            (Some(o), Some(i)) if s.outputs.len() == 1 && s.inputs.len() == 1 => (o, i),
            _ => return Verdict::Reject("n/a".into()),
        };
        match dec(b) {
            None => Verdict::Reject("unparsable".into()),
            Some(p) => bit(guard(|| p.verify(&circuit(c), o, i, circuit(c).circuit_to_hash::<E>()))),
        }
    }
    fn parse(&self, b: &[u8]) -> Option<Vec<u8>> {
        dec(b).map(|p| enc(&p))
    }
    fn schema(&self) -> &'static str {
        "[([[w]][w])([[w]][w])]"
    }
}
pub struct Zk {
    params: Parameters<E>,
    hash: F,
}
impl Zk {
    pub fn new() -> Zk {
        let params = Parameters::<E>::new(&mut Coins::seeded(3), 12);
        let hash = params.param_to_hash();
        Zk { params, hash }
    }
}
impl LScheme<F> for Zk {
    fn prove(&self, c: &LCase<F>, named: &Lc, seed: u64) -> Result<(Vec<u8>, Stmt<F>), String> {
        guard(|| {
            let h = circuit(named).circuit_to_hash::<E>();
            let (p, out) = ZKLinearGKRProof::<E>::prover(&self.params, &circuit(&c.c), &c.inputs[0], &c.aux[0], h, self.hash, &mut Coins::seeded(seed));
            (ser(&p), Stmt { outputs: vec![out], inputs: vec![c.inputs[0].clone()] })
        })
    }
    fn verify(&self, c: &Lc, b: &[u8], s: &Stmt<F>) -> Verdict {
        let (o, i) = match (s.outputs.first(), s.inputs.first()) {
            (Some(o), Some(i)) if s.outputs.len() == 1 && s.inputs.len() == 1 => (o, i),
            _ => return Verdict::Reject("n/a".into()),
        };
        match ZKLinearGKRProof::<E>::deserialize(b) {
            Err(_) => Verdict::Reject("unparsable".into()),
            Ok(p) => bit(guard(|| p.verify(&self.params, &circuit(c), o, i, circuit(c).circuit_to_hash::<E>(), self.hash))),
        }
    }
    fn parse(&self, b: &[u8]) -> Option<Vec<u8>> {
        ZKLinearGKRProof::<E>::deserialize(b).ok().map(|p| ser(&p))
    }
    fn schema(&self) -> &'static str {
        "([w][([w][w][(ww[w]ww)])([w][w][(ww[w]ww)])www(www[w])(ww)](([w][w])wwww)w(ww)(([w][w])wwww)w(ww))"
    }
}
pub fn subject<S: LScheme<F> + Send + 'static>(s: &Arc<S>, c: &LCase<F>) -> Option<Subject<F>> {
    let (_, st) = s.prove(c, &c.c, 5).ok()?;
    let (s1, s2, c1, c2) = (s.clone(), s.clone(), c.clone(), c.clone());
    let st2 = st.clone();
    Some(Subject {
        name: c.show(),
        schema: s.schema(),
        publics: st.flat(),
        prove: Box::new(move |seed| s1.prove(&c1, &c1.c, seed).map(|x| x.0)),
        verify: Box::new(move |b, p| s2.verify(&c2.c, b, &st2.unflat(p))),
    })
}
pub fn cases(ctx: &Ctx) -> Vec<LCase<F>> {
    let shapes: &[(usize, usize)] = &[(1, 1), (2, 2), (2, 1), (1, 2), (0, 3), (3, 0), (3, 4), (5, 2), (2, 7)];
    let mut v: Vec<LCase<F>> = vec![];
    for (k, c) in tiny(3, 2).iter().enumerate() {
        v.push(values(c, 1, k % 5));
    }
    let w: &[usize] = ctx.b(&[1, 2, 3, 5, 8], &[1, 2, 3, 4, 5, 6, 8, 9]);
    for (k, c) in patterned(shapes, w, 3, ctx.b(2, 3)).iter().enumerate() {
        v.push(values(c, 1, k % 7));
    }
    // narrowing and widening, up to a few hundred gates
    for k in 4..=ctx.b(9, 10) {
        let m = 1usize << k;
        for n in [m - 1, m, m + 1] {
            for c in [
                Lc { na: n, ni: 3, layers: vec![pattern(n, 2 * n.next_power_of_two(), k), pattern(3, n, 1)] },
                Lc { na: 2, ni: n, layers: vec![pattern(2, 2 * n.next_power_of_two(), k), pattern(n, 2, 1), pattern(1, n, 2)] },
            ] {
                v.push(values(&c, 1, k));
            }
        }
    }
    ctx.bound(format!("{} circuits: every circuit of one layer of <= 3 gates over two input nodes and of two layers of 2 and <= 2 gates; every sequence of <= 3 layer widths from {:?} over input shapes {:?}; widths around powers of two up to 2^{}", v.len(), w, shapes, ctx.b(9, 10)));
    v
}
pub fn l01(ctx: &Ctx) {
    ctx.assume(TOY);
    let cs = cases(ctx);
    l_complete(ctx, &Plain, &cs);
    l_complete(ctx, &Zk::new(), &cs);
}
pub fn l02(ctx: &Ctx) {
    ctx.assume(TOY);
    let (p, z) = (Arc::new(Plain), Arc::new(Zk::new()));
    let shapes: &[(usize, usize)] = &[(1, 1), (2, 2), (2, 1), (1, 3), (0, 2), (3, 0)];
    let w: &[usize] = ctx.b(&[1, 2, 3], &[1, 2, 3, 5]);
    let mut cs: Vec<LCase<F>> = patterned(shapes, w, 2, 1).iter().enumerate().map(|(k, c)| values(c, 1, k % 4)).collect();
    cs.extend(deep().iter().enumerate().map(|(k, c)| values(c, 1, k)));
    let o = LSound { max_tamper: ctx.b(4000, usize::MAX), crashes: false };
    l_sound(ctx, &*p, &cs, &o);
    l_sound(ctx, &*z, &cs, &o);
    ctx.bound(format!("{} circuits: every single-value change of outputs and inputs, every single-position and list alteration of the proof", cs.len()));
    let mut pc = cs.clone();
    pc.extend(patterned(&[(1, 1), (2, 1), (2, 3)], ctx.b(&[1, 2, 3], &[1, 2, 3, 5]), 3, 1).iter().enumerate().map(|(k, c)| values(c, 1, k % 4)));
    #[cfg(feature = "cheat")]
    cheat::provers(ctx, &pc);
    let fc: Vec<LCase<F>> = tiny(ctx.b(1, 2), 1).iter().map(|c| values(c, 1, 0)).collect();
    l_foreign(ctx, &*p, &fc);
    if ctx.thorough() {
        l_foreign(ctx, &*z, &fc);
    } else {
        let fz: Vec<LCase<F>> = tiny(1, 0).iter().chain(&patterned(&[(1, 1), (2, 2)], &[1, 2, 3], 2, 3)).map(|c| values(c, 1, 0)).collect();
        l_foreign(ctx, &*z, &fz);
    }
    ctx.bound(format!("all ordered pairs of {} tiny circuits of the same layer widths: the prover of one for the other", fc.len()));
    let small: Vec<LCase<F>> = patterned(&[(1, 1), (2, 1)], ctx.b(&[1, 2][..], &[1, 2, 3][..]), 2, 1).iter().map(|c| values(c, 1, 0)).collect();
    let sub: Vec<Subject<F>> = small.iter().filter_map(|c| subject(&p, c)).collect();
    causal_but(ctx, &sub, &Causal { window: 400, nearest: ctx.b(6, 10) }, plain_redundant);
    mcfs::all_decide(ctx, &fs_subjects(ctx.b(1, 2)));
    let sub: Vec<Subject<F>> = small.iter().take(ctx.b(3, 8)).filter_map(|c| subject(&z, c)).collect();
    causal_but(ctx, &sub, &Causal { window: ctx.b(24, 100), nearest: ctx.b(6, 10) }, zk_redundant);
}
/// Phase one sends V(u) and three values of which only the combination V(u)*m + V(u)*a1 + a2 is
/// meaningful to the verifier; each split of it proves the same.
pub fn plain_redundant(p: &[usize], q: &[usize]) -> bool {
    let r = |p: &[usize]| p.len() == 4 && p[1] == 0 && p[2] == 1 && p[3] > 0;
    r(p) && r(q)
}
/// In the logarithmic dot product argument only delta + a_hat * beta matters (and a_hat is known
/// before both are sent): for one-element vectors a_hat is 1.
pub fn zk_redundant(p: &[usize], q: &[usize]) -> bool {
    p.len() == 2 && q.len() == 2 && p[0] == q[0] && (p[0] == 2 || p[0] == 5) && p[1] == 1 && q[1] == 2
}
pub fn dump(_: &Ctx) {
    let c = values(&Lc { na: 2, ni: 2, layers: vec![pattern(2, 4, 0), pattern(1, 2, 1)] }, 1, 0);
    mcfs::dump(&subject(&Arc::new(Plain), &c).unwrap());
    mcfs::dump(&subject(&Arc::new(Zk::new()), &c).unwrap());
}
pub const TABLE: &[(&str, PropFn)] = &[("L01", l01), ("L02", l02), ("DUMP", dump)];

/// the circuits whose transcripts are tabulated
pub fn fs_subjects(level: usize) -> Vec<(String, Subject<F>)> {
    let (p, z) = (Arc::new(Plain), Arc::new(Zk::new()));
    let mut v = vec![];
    for c in mccore::fs_circuits(level) {
        let x = values::<F>(&c, 1, 0);
        v.extend(subject(&p, &x).map(|s| (format!("libra {}", c.show()), s)));
        v.extend(subject(&z, &x).map(|s| (format!("libra-zk {}", c.show()), s)));
    }
    v
}
