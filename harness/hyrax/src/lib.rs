use ark_serialize::*;
use mccore::toy::*;
use mccore::*;
use mcfs::{causal_but, Causal, Subject};
use std::sync::Arc;
use zkp_hyrax::circuit::Circuit;
use zkp_hyrax::hyrax_proof::HyraxProof;
use zkp_hyrax::params::Parameters;

pub type E = EBig;
pub type F = FBig;
pub const TOY: &str = "toy group with visible discrete logarithms over a 61-bit prime field runs the same curve-generic code as real curves; the Fiat-Shamir hash is the real merlin";

pub fn ser<T: CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut v = vec![];
    t.serialize(&mut v).unwrap();
    v
}
pub fn circuit(c: &Lc) -> Circuit {
    Circuit::new(c.ni, c.na, &c.layers)
}
#[cfg(feature = "cheat")]
pub mod cheat;
pub struct Hyrax {
    params: Parameters<E>,
    hash: F,
}
impl Hyrax {
    pub fn new() -> Hyrax {
        let params = Parameters::<E>::new(&mut Coins::seeded(3), 16);
        let hash = params.param_to_hash();
        Hyrax { params, hash }
    }
}
impl LScheme<F> for Hyrax {
    fn prove(&self, c: &LCase<F>, named: &Lc, seed: u64) -> Result<(Vec<u8>, Stmt<F>), String> {
        guard(|| {
            let h = circuit(named).circuit_to_hash::<E>();
            let (p, out) = HyraxProof::<E>::prover(&self.params, &c.aux, &c.inputs, &circuit(&c.c), h, self.hash, c.aux.len(), &mut Coins::seeded(seed));
            (ser(&p), Stmt { outputs: out, inputs: c.inputs.clone() })
        })
    }
    fn verify(&self, c: &Lc, b: &[u8], s: &Stmt<F>) -> Verdict {
        match HyraxProof::<E>::deserialize(b) {
            Err(_) => Verdict::Reject("unparsable".into()),
            Ok(p) => Verdict::of(guard(|| p.verify(&self.params, &s.outputs, &s.inputs, &circuit(c), circuit(c).circuit_to_hash::<E>(), self.hash)).map(Ok::<bool, String>)),
        }
    }
    fn parse(&self, b: &[u8]) -> Option<Vec<u8>> {
        HyraxProof::<E>::deserialize(b).ok().map(|p| ser(&p))
    }
    fn schema(&self) -> &'static str {
        "([w][((www[w])wwwww[w][w][w][w][w]w)](([w][w])wwww)w(ww)(([w][w])wwww)w(ww))"
    }
}
pub fn subject(s: &Arc<Hyrax>, c: &LCase<F>) -> Option<Subject<F>> {
    let (_, st) = s.prove(c, &c.c, 5).ok()?;
    let (s1, s2, c1, c2) = (s.clone(), s.clone(), c.clone(), c.clone());
    let st2 = st.clone();
    Some(Subject {
        name: c.show(),
        schema: s.schema(),
        publics: st.flat(),
        prove: Box::new(move |seed| s1.prove(&c1, &c1.c, seed).map(|x| x.0)),
        verify: Box::new(move |b, p| s2.verify(&c2.c, b, &st2.unflat(p))),
    })
}
pub fn cases(ctx: &Ctx) -> Vec<LCase<F>> {
    let shapes: &[(usize, usize)] = &[(1, 1), (2, 2), (2, 1), (1, 2), (0, 3), (3, 0), (3, 4), (5, 2)];
    let mut v: Vec<LCase<F>> = vec![];
    for (k, c) in tiny(3, 2).iter().enumerate() {
        v.push(values(c, 1 << (k % 3), k % 5));
    }
    let w: &[usize] = ctx.b(&[1, 2, 3, 4, 5, 8], &[1, 2, 3, 4, 5, 6, 8, 9]);
    for (k, c) in patterned(shapes, w, 3, 1).iter().enumerate() {
        for n in ctx.b(&[1, 2, 4][..], &[1, 2, 4, 8][..]) {
            v.push(values(c, *n, k % 7));
        }
    }
    for c in patterned(&[(1, 1), (2, 3)], &[1, 2, 3], 2, 1) {
        for n in 0..ctx.b(6, 8) {
            v.push(values(&c, 1 << n, n));
        }
    }
    for k in 3..=ctx.b(7, 8) {
        let m = 1usize << k;
        for n in [m - 1, m, m + 1] {
            for c in [
                Lc { na: n, ni: 3, layers: vec![pattern(n, 2 * n.next_power_of_two(), k), pattern(3, n, 1)] },
                Lc { na: 2, ni: n, layers: vec![pattern(2, 2 * n.next_power_of_two(), k), pattern(n, 2, 1), pattern(1, n, 2)] },
            ] {
                v.push(values(&c, 1, k));
                v.push(values(&c, 2, k));
            }
        }
    }
    ctx.bound(format!("{} circuits with 1..{} copies: every circuit of one layer of <= 3 gates over two input nodes; every sequence of <= 3 layer widths from {:?} over input shapes {:?}; widths around powers of two up to 2^{}", v.len(), 1 << ctx.b(5, 7), w, shapes, ctx.b(7, 8)));
    v
}
pub fn h01(ctx: &Ctx) {
    ctx.assume(TOY);
    ctx.assume("the number of copies is a power of two (asserted by prover and verifier)");
    l_complete(ctx, &Hyrax::new(), &cases(ctx));
}
pub fn h02(ctx: &Ctx) {
    ctx.assume(TOY);
    let h = Arc::new(Hyrax::new());
    let shapes: &[(usize, usize)] = &[(1, 1), (2, 2), (2, 1), (1, 3), (0, 2), (3, 0)];
    let w: &[usize] = ctx.b(&[1, 2, 3], &[1, 2, 3, 5]);
    let mut cs: Vec<LCase<F>> = vec![];
    for (k, c) in patterned(shapes, w, 2, 1).iter().enumerate() {
        for n in [1, 2, 4] {
            if n < 4 || k % ctx.b(5, 1) == 0 {
                cs.push(values(c, n, k % 4));
            }
        }
    }
    for (k, c) in deep().iter().enumerate() {
        for n in [1, 2, 4, 8] {
            if n <= ctx.b(2, 8) || k == 0 {
                cs.push(values(c, n, k % 4));
            }
        }
    }
    let o = LSound { max_tamper: ctx.b(4000, usize::MAX), crashes: false };
    l_sound(ctx, &*h, &cs, &o);
    ctx.bound(format!("{} circuits: every single-value change of outputs and inputs, every single-position and list alteration of the proof", cs.len()));
    let mut pc: Vec<LCase<F>> = patterned(&[(1, 1), (2, 1)], &[1, 2], 2, 1).iter().enumerate().map(|(k, c)| values(c, 1 + k % 2, k % 4)).collect();
    pc.extend(patterned(&[(1, 1), (2, 3)], ctx.b(&[1, 2], &[1, 2, 3]), ctx.b(2, 3), ctx.b(1, 2)).iter().flat_map(|c| [values(c, 1, 0), values(c, 2, 1)]));
    pc.extend(deep().iter().map(|c| values(c, 1, 0)));
    #[cfg(feature = "cheat")]
    cheat::provers(ctx, &h, &pc);
    let mut fc: Vec<LCase<F>> = tiny(ctx.b(1, 2), 0).iter().map(|c| values(c, 1, 0)).collect();
    fc.extend(patterned(&[(1, 1), (2, 2)], &[1, 2, 3], 2, 3).iter().flat_map(|c| [values(c, 1, 0), values(c, 2, 0)]));
    l_foreign(ctx, &*h, &fc);
    ctx.bound(format!("all ordered pairs of {} circuits of the same layer widths: the prover of one for the other", fc.len()));
    let small: Vec<LCase<F>> = patterned(&[(1, 1), (2, 1)], ctx.b(&[1, 2][..], &[1, 2, 3][..]), 2, 1).iter().flat_map(|c| [values(c, 1, 0), values(c, 2, 0)]).collect();
    let sub: Vec<Subject<F>> = small.iter().take(ctx.b(4, 16)).filter_map(|c| subject(&h, c)).collect();
    mcfs::all_decide(ctx, &fs_subjects(ctx.b(1, 2)));
    causal_but(ctx, &sub, &Causal { window: ctx.b(24, 100), nearest: ctx.b(6, 10) }, redundant);
}
/// comm_a0 repeats what the verifier knows; comm_evals are per-round claims that the final matrix
/// check subsumes. Of delta and beta in the dot product argument only delta + a_hat * beta counts,
/// and a_hat is 1 for one-element vectors.
pub fn redundant(p: &[usize], q: &[usize]) -> bool {
    let r = |p: &[usize]| p.len() >= 3 && p[0] == 1 && (p[2] == 1 || p[2] == 7);
    let dot = p.len() == 2 && q.len() == 2 && p[0] == q[0] && (p[0] == 2 || p[0] == 5) && p[1] == 1 && q[1] == 2;
    dot || (r(p) && r(q))
}
pub fn dump(_: &Ctx) {
    let c = values(&Lc { na: 2, ni: 2, layers: vec![pattern(2, 4, 0), pattern(2, 2, 1)] }, 2, 0);
    mcfs::dump(&subject(&Arc::new(Hyrax::new()), &c).unwrap());
}
pub const TABLE: &[(&str, PropFn)] = &[("H01", h01), ("H02", h02), ("DUMP", dump)];

/// the circuits whose transcripts are tabulated
pub fn fs_subjects(level: usize) -> Vec<(String, Subject<F>)> {
    let h = Arc::new(Hyrax::new());
    let mut v = vec![];
    for c in mccore::fs_circuits(level) {
        for (k, n) in [(1, "hyrax"), (2, "hyrax-2")] {
            v.extend(subject(&h, &values::<F>(&c, k, 0)).map(|s| (format!("{} {}", n, c.show()), s)));
        }
    }
    v
}
