//! Provers that do not follow the protocol.
use super::*;
use ark_poly::{univariate::DensePolynomial as Poly, Evaluations, Polynomial, UVPolynomial};
use merlin::mc::{logged, Ev};

/// satisfied programs that use every wire, selector and public input
pub fn targets(n: usize) -> Vec<(Prog, Vec<F>)> {
    let v = |x: &[i64]| x.iter().map(|a| fi::<F>(*a)).collect::<Vec<F>>();
    let all = vec![
        (
            Prog {
                nv: 4,
                gates: vec![G::Con(0, 1, 2), G::Add((0, 1), (1, 1), 2, None, 0, 0), G::Mul(1, 2, 3, Some((0, 2)), 1, 1, 0)],
            },
            v(&[3, 4, 7, 35]),
        ),
        (Prog { nv: 1, gates: vec![G::Con(0, 0, 5)] }, v(&[5])),
        (Prog { nv: 2, gates: vec![G::Mul(0, 0, 1, None, 1, 0, 0), G::Con(1, 0, 9)] }, v(&[3, 9])),
        (
            Prog {
                nv: 4,
                gates: vec![
                    G::Eq(0, 1),
                    G::Add((0, 2), (1, -1), 2, Some((3, 1)), 1, 1),
                    G::Mul(2, 3, 0, Some((2, -1)), 1, 0, -1),
                    G::Con(3, 2, 0),
                    G::Add((3, 1), (3, 0), 3, None, 0, 0),
                ],
            },
            // a = b, a + d + 2 = c with d = 2, c*d - c - 1 = a
            v(&[-3, -3, 1, 2]),
        ),
        (Prog { nv: 3, gates: vec![G::Add((0, 1), (1, 1), 2, None, 0, 0); 4] }, v(&[1, 2, 3])),
        (Prog { nv: 2, gates: vec![G::Mul(0, 1, 0, None, 1, 0, 0), G::Mul(1, 1, 1, None, 1, 0, 0), G::Eq(1, 1)] }, v(&[6, 1])),
    ];
    let all: Vec<(Prog, Vec<F>)> = all.into_iter().filter(|(p, v)| p.sat(v)).collect();
    assert!(all.len() >= 5, "targets are satisfied");
    all.into_iter().take(n).collect()
}
/// (circuit, the same circuit with one occurrence of a variable renamed, values satisfying the
/// second with the two variables different)
fn splits(ctx: &Ctx) -> Vec<(Prog, Prog, Vec<F>)> {
    let mut base: Vec<Prog> = vec![];
    let l = letters(ctx.thorough());
    for a in &l {
        for b in &l {
            base.push(Prog { nv: 3, gates: vec![a.clone(), b.clone()] });
        }
    }
    // a variable tied only within one wire, for every wire
    for w in 0..4 {
        for rows in 2..=ctx.b(3, 5) {
            let mut gates = vec![];
            for r in 0..rows {
                let o = |k: usize| if k == w { 0 } else { 1 + (k + r) % 2 };
                gates.push(G::Add((o(1), 1), (o(2), 1), o(3), Some((o(0), 1)), 0, 0));
            }
            base.push(Prog { nv: 3, gates });
        }
    }
    let mut out = vec![];
    for a in base {
        let uses = a.gates.iter().map(|g| slots(g).len()).sum::<usize>();
        for k in 0..uses {
            let (b, old) = rename(&a, k);
            if !b.gates.iter().any(|g| slots(g).contains(&old)) {
                continue;
            }
            let mut kept = 0;
            for v in tuples(&[0i64, 1, 2], b.nv) {
                let v: Vec<F> = v.iter().map(|x| fi::<F>(*x)).collect();
                if b.sat(&v) && v[old] != v[b.nv - 1] && kept < ctx.b(2, 6) {
                    kept += 1;
                    out.push((a.clone(), b.clone(), v));
                }
            }
        }
    }
    out
}
fn slots(g: &G) -> Vec<usize> {
    match g {
        // the composer puts this variable on several wires with zero coefficients
        G::Con(a, ..) => vec![*a],
        G::Eq(a, b) => vec![*a, *b],
        G::Add(l, r, o, x, ..) => [l.0, r.0, *o].iter().cloned().chain(x.iter().map(|x| x.0)).collect(),
        G::Mul(l, r, o, x, ..) => [*l, *r, *o].iter().cloned().chain(x.iter().map(|x| x.0)).collect(),
    }
}
fn rename(p: &Prog, mut k: usize) -> (Prog, usize) {
    let mut q = p.clone();
    let new = q.nv;
    q.nv += 1;
    for g in q.gates.iter_mut() {
        let n = slots(g).len();
        if k < n {
            let old = slots(g)[k];
            let t: &mut usize = match g {
                G::Con(a, ..) => a,
                G::Eq(a, b) => [a, b].into_iter().nth(k).unwrap(),
                G::Add(l, r, o, x, ..) => match k {
                    0 => &mut l.0,
                    1 => &mut r.0,
                    2 => o,
                    _ => &mut x.as_mut().unwrap().0,
                },
                G::Mul(l, r, o, x, ..) => match k {
                    0 => l,
                    1 => r,
                    2 => o,
                    _ => &mut x.as_mut().unwrap().0,
                },
            };
            *t = new;
            return (q, old);
        }
        k -= n;
    }
    unreachable!()
}
/// (circuit, the same circuit with other coefficients in one gate, values satisfying only the second)
fn recoef(ctx: &Ctx) -> Vec<(Prog, Prog, Vec<F>)> {
    let mut out = vec![];
    let l = letters(ctx.thorough());
    let alt = |g: &G| -> Vec<G> {
        match g.clone() {
            G::Con(a, c, p) => vec![G::Con(a, c + 1, p)],
            G::Eq(..) => vec![],
            G::Add(a, b, o, x, c, p) => {
                let mut v = vec![G::Add((a.0, a.1 + 1), b, o, x, c, p), G::Add(a, (b.0, b.1 + 1), o, x, c, p), G::Add(a, b, o, x, c + 1, p)];
                if let Some((y, q)) = x {
                    v.push(G::Add(a, b, o, Some((y, q + 1)), c, p));
                }
                v
            }
            G::Mul(a, b, o, x, m, c, p) => {
                let mut v = vec![G::Mul(a, b, o, x, m + 1, c, p), G::Mul(a, b, o, x, m, c + 1, p)];
                if let Some((y, q)) = x {
                    v.push(G::Mul(a, b, o, Some((y, q + 1)), m, c, p));
                }
                v
            }
        }
    };
    for a in &l {
        for b in &l {
            let p = Prog { nv: 3, gates: vec![a.clone(), b.clone()] };
            for i in 0..2 {
                for g in alt(&p.gates[i]) {
                    let mut q = p.clone();
                    q.gates[i] = g;
                    let mut kept = 0;
                    for v in tuples(&[0i64, 1, 2], 3) {
                        let v: Vec<F> = v.iter().map(|x| fi::<F>(*x)).collect();
                        if q.sat(&v) && !p.sat(&v) && kept < ctx.b(2, 6) {
                            kept += 1;
                            out.push((p.clone(), q.clone(), v));
                        }
                    }
                }
            }
        }
    }
    out
}
/// The real prover working from the polynomials of another circuit (one whose statement it can
/// satisfy) under the verifier's key for this one.
pub fn swapped(ctx: &Ctx) {
    let mut xs = splits(ctx);
    let n = xs.len();
    xs.extend(recoef(ctx));
    ctx.bound(format!("real prover with the polynomials of a weaker circuit: {} circuits with one occurrence of a variable untied, {} with one coefficient changed", n, xs.len() - n));
    par_for(&xs, |_, (a, b, v)| {
        let zero = vec![F::zero(); a.nv];
        let (ka, kb) = (keys(&a.composer(&zero), 11), keys(&b.composer(v), 11));
        if let (Ok((pa, va)), Ok((pb, _))) = (ka, kb) {
            let cs = b.composer(v);
            let forged = ProverKey { vk: pa.vk, rands: pb.rands, index: pb.index, ck: pb.ck };
            ctx.step(1);
            ctx.state(&(a, b, vs(v)));
            match prove(&forged, &cs, 3) {
                Err(_) => ctx.count("prover refused bad witness", 1),
                Ok(p) => {
                    ctx.trace(1);
                    let r = verify(&va, cs.public_inputs(), &p);
                    ctx.check(!r.acc(), "proof-for-weaker-circuit-accepted", || format!("circuit {}; prover used {} with {}", a.show(), b.show(), vs(v)));
                }
            }
        }
    });
}

/// what the verifier draws
#[derive(Clone, Debug)]
struct Ch {
    beta: F,
    gamma: F,
    alpha: F,
    zeta: F,
    eps: F,
    log: Vec<Vec<u8>>,
}
fn listen(vk: &Vk, pi: &[F], p: &Proof<F, PC>) -> Option<Ch> {
    let (_, l) = logged(|| verify(vk, pi, p));
    let d: Vec<Vec<u8>> = l.iter().filter_map(|e| if let Ev::Challenge(_, c) = e { Some(c.clone()) } else { None }).collect();
    if d.len() < 5 {
        return None;
    }
    let bg = drawn(&d[1], 2);
    Some(Ch { beta: bg[0], gamma: bg[1], alpha: drawn(&d[2], 1)[0], zeta: drawn(&d[3], 1)[0], eps: drawn(&d[4], 1)[0], log: d })
}
const NAMES: [&str; 11] = ["q_arith", "r", "sigma_0", "sigma_1", "sigma_2", "t", "w_0", "w_1", "w_2", "w_3", "z"];
fn at(l: &str) -> usize {
    NAMES.iter().position(|x| *x == l).unwrap()
}
/// which of the three parts of the quotient identity are taken into account
#[derive(Clone, Copy, Debug)]
struct Parts {
    arith: bool,
    perm: bool,
    start: bool,
    /// the power of alpha in front of the starting condition
    pow: u64,
}
const ALL: Parts = Parts { arith: true, perm: true, start: true, pow: 2 };
struct Dom {
    n: usize,
    d: GeneralEvaluationDomain<F>,
}
impl Dom {
    fn new(n: usize) -> Dom {
        Dom { n, d: GeneralEvaluationDomain::new(n).unwrap() }
    }
    fn zh(&self, x: F) -> F {
        x.pow([self.n as u64]) - F::one()
    }
    fn l1(&self, x: F) -> F {
        self.zh(x) * (F::from(self.n as u64) * (x - F::one())).inverse().unwrap()
    }
    fn poly(&self, v: &[F]) -> Poly<F> {
        let mut v = v.to_vec();
        v.resize(self.n, F::zero());
        Evaluations::from_vec_and_domain(v, self.d).interpolate()
    }
}
/// coefficients of the linear combination opened as "r"
fn lc(d: &Dom, c: &Ch, e: &[F], s: Parts) -> Vec<(&'static str, F)> {
    let k = ks();
    let g = |l: &str| e[at(l)];
    let mut v = vec![];
    if s.arith {
        let q = g("q_arith");
        v.push(("q_0", q * g("w_0")));
        v.push(("q_1", q * g("w_1")));
        v.push(("q_2", q * g("w_2")));
        v.push(("q_3", q * g("w_3")));
        v.push(("q_m", q * g("w_1") * g("w_2")));
        v.push(("q_c", q));
    }
    let mut z = F::zero();
    if s.perm {
        let mut num = c.alpha;
        let mut den = -c.alpha * c.beta * g("z");
        for i in 0..4 {
            num *= g(&format!("w_{}", i)) + k[i] * c.beta * c.zeta + c.gamma;
        }
        for i in 0..3 {
            den *= g(&format!("w_{}", i)) + c.beta * g(&format!("sigma_{}", i)) + c.gamma;
        }
        z += num;
        v.push(("sigma_3", den));
    }
    if s.start {
        z += d.l1(c.zeta) * c.alpha.pow([s.pow]);
    }
    v.push(("z", z));
    v
}
/// t(zeta) Z_H(zeta) minus the rest, zero when the identity holds
fn residual(d: &Dom, c: &Ch, e: &[F], pi: &Poly<F>, s: Parts) -> F {
    let g = |l: &str| e[at(l)];
    let mut r = g("r");
    if s.arith {
        r += g("q_arith") * pi.evaluate(&c.zeta);
    }
    if s.perm {
        let mut x = g("z") * c.alpha * (g("w_3") + c.gamma);
        for i in 0..3 {
            x *= g(&format!("w_{}", i)) + c.beta * g(&format!("sigma_{}", i)) + c.gamma;
        }
        r -= x;
    }
    if s.start {
        r -= d.l1(c.zeta) * c.alpha.pow([s.pow]);
    }
    g("t") * d.zh(c.zeta) - r
}
/// the commitment a query label stands for, as a discrete logarithm
fn commitment(vk: &Vk, p: &Proof<F, PC>, d: &Dom, c: &Ch, e: &[F], s: Parts, label: &str) -> F {
    let base = |l: &str| -> F {
        if let Some(i) = vk.labels.iter().position(|x| x == l) {
            return vk.comms[i].comm.0 .0;
        }
        let i = ["w_0", "w_1", "w_2", "w_3", "z", "t_0", "t_1", "t_2", "t_3"].iter().position(|x| *x == l).unwrap();
        p.commitments.iter().flatten().nth(i).unwrap().comm.0 .0
    };
    match label {
        "r" => lc(d, c, e, s).iter().map(|(l, k)| base(l) * k).sum(),
        "t" => {
            let x = c.zeta.pow([d.n as u64]);
            base("t_0") + base("t_1") * x + base("t_2") * x * x + base("t_3") * x * x * x
        }
        l => base(l),
    }
}
/// Openings at both points for the claimed values, computed with the trapdoor; `lie` replaces the
/// value used for one label.
fn open(vk: &Vk, p: &mut Proof<F, PC>, d: &Dom, c: &Ch, s: Parts, lie: Option<(usize, F)>) {
    let k = &vk.rk.vk;
    let trap = k.beta_h.0 * k.h.0.inverse().unwrap();
    let g = k.g.0;
    let e = p.evaluations.clone();
    let val = |i: usize| match lie {
        Some((j, x)) if i == j => x,
        _ => e[i],
    };
    let z2 = c.zeta * d.d.element(1);
    let i = at("z");
    let w1 = (commitment(vk, p, d, c, &e, s, "z") - val(i) * g) * (trap - z2).inverse().unwrap();
    let (mut cc, mut ch) = (F::zero(), F::one());
    for i in 0..10 {
        cc += ch * (commitment(vk, p, d, c, &e, s, NAMES[i]) - val(i) * g);
        ch *= c.eps;
    }
    let w2 = cc * (trap - c.zeta).inverse().unwrap();
    let kp = |w: F| ark_poly_commit::kzg10::Proof::<E> { w: A::of(w), random_v: None };
    p.pc_proof.proof = vec![kp(w1), kp(w2)];
}
/// An adversary that can open commitments to anything: the verifier must still insist on the
/// quotient identity and on every single opening.
pub fn openings(ctx: &Ctx) {
    let ts = targets(ctx.b(6, 6));
    ctx.bound(format!("trapdoor adversary on {} programs: every evaluation shifted, alone or with every other one solved to restore the identity, openings forged for all values or for all but one; openings at the two points traded against each other", ts.len()));
    let jobs: Vec<(Prog, Vec<F>, u64)> = ts.into_iter().flat_map(|(p, v)| (0..ctx.b(2, 8)).map(move |s| (p.clone(), v.clone(), s))).collect();
    par_for(&jobs, |_, (p, v, seed)| {
        let cs = p.composer(v);
        let pi = cs.public_inputs().to_vec();
        let (pk, vk) = match keys(&cs, 11 + seed) {
            Ok(k) => k,
            Err(_) => return,
        };
        let hon = match prove(&pk, &cs, 3) {
            Ok(p) => p,
            Err(_) => return,
        };
        let d = Dom::new(vk.info.n);
        let pip = d.poly(&pi);
        let ch = |e: &[F]| {
            let mut q = copy(&hon);
            q.evaluations = e.to_vec();
            listen(&vk, &pi, &q)
        };
        let ok = hon.evaluations.len() == 11 && hon.commitments.iter().map(|c| c.len()).collect::<Vec<_>>() == [4, 1, 4];
        let c0 = match ch(&hon.evaluations) {
            Some(c) if ok => c,
            _ => {
                ctx.count("trapdoor baseline not accepted", 1);
                return;
            }
        };
        let mut base = copy(&hon);
        open(&vk, &mut base, &d, &c0, ALL, None);
        if !residual(&d, &c0, &hon.evaluations, &pip, ALL).is_zero() || !verify(&vk, &pi, &base).acc() {
            // the adversary no longer speaks the verifier's language: it proves nothing
            ctx.count("trapdoor baseline not accepted", 1);
            return;
        }
        ctx.count("trapdoor baselines", 1);
        let try_ = |e: Vec<F>, lie: Option<(usize, F)>, what: String| {
            let c = match ch(&e) {
                Some(c) => c,
                None => return,
            };
            let mut q = copy(&hon);
            q.evaluations = e.clone();
            open(&vk, &mut q, &d, &c, ALL, lie);
            let good = residual(&d, &c, &e, &pip, ALL).is_zero();
            let r = verify(&vk, &pi, &q);
            ctx.step(1);
            ctx.trace(1);
            ctx.state(&(p, *seed, what.as_str()));
            if r.acc() && (!good || lie.is_some()) {
                ctx.violate(if good { "accepted-without-opening" } else { "accepted-without-identity" }, || format!("{}: {}", p.show(), what));
            }
            ctx.count(if good && lie.is_none() { "trapdoor consistent" } else { "trapdoor inconsistent" }, 1);
        };
        for a in 0..11 {
            for dl in [F::one(), -F::one(), hon.evaluations[a]] {
                let mut e = hon.evaluations.clone();
                e[a] += dl;
                if e == hon.evaluations {
                    continue;
                }
                try_(e.clone(), None, format!("{} shifted", NAMES[a]));
                for b in 0..11 {
                    if a == b {
                        continue;
                    }
                    // the identity is affine in every single evaluation; r also stands for a
                    // combination that depends on the others, which forged openings absorb
                    let f = |x: F| {
                        let mut t = e.clone();
                        t[b] = x;
                        residual(&d, &c0, &t, &pip, ALL)
                    };
                    let (f0, f1) = (f(F::zero()), f(F::one()));
                    if let Some(inv) = (f1 - f0).inverse() {
                        let mut t = e.clone();
                        t[b] = -f0 * inv;
                        try_(t.clone(), None, format!("{} shifted, {} solved", NAMES[a], NAMES[b]));
                        for l in [a, b] {
                            if t[l] != hon.evaluations[l] {
                                try_(t.clone(), Some((l, hon.evaluations[l])), format!("{} shifted, {} solved, {} not opened", NAMES[a], NAMES[b], NAMES[l]));
                            }
                        }
                    }
                }
            }
        }
        // false values of t and r at zeta, the error moved to the other point with a guess of the
        // weight given to the second opening
        let (it, ir) = (at("t"), at("r"));
        let mut e = hon.evaluations.clone();
        e[it] += F::one();
        e[ir] += d.zh(c0.zeta);
        if let Some(c) = ch(&e) {
            let mut guesses: Vec<(String, F)> = vec![("0".into(), F::zero()), ("1".into(), F::one()), ("eps".into(), c.eps), ("zeta".into(), c.zeta)];
            guesses.push(("fixed generator".into(), u128::rand(&mut ark_std::test_rng()).into()));
            for (i, s) in c.log.iter().enumerate() {
                for k in 0..3 {
                    let mut sd = [0u8; 32];
                    sd.copy_from_slice(&s[..32]);
                    let mut r = ChaChaRng::from_seed(sd);
                    for _ in 0..k {
                        F::rand(&mut r);
                    }
                    guesses.push((format!("digest {} draw {}", i, k), u128::rand(&mut r).into()));
                }
            }
            let k = &vk.rk.vk;
            let mut q = copy(&hon);
            q.evaluations = e.clone();
            // honest openings of the true values under the new weights
            let mut t = copy(&hon);
            t.evaluations = hon.evaluations.clone();
            open(&vk, &mut t, &d, &c, ALL, None);
            let z1 = c.zeta * d.d.element(1);
            let err = -(c.eps.pow([it as u64]) + c.eps.pow([ir as u64]) * d.zh(c0.zeta)) * k.g.0;
            for (what, r) in guesses {
                ctx.step(1);
                if let Some(i) = (c.zeta - z1).inverse() {
                    let b = -err * i;
                    let a = -r * b;
                    let mut q = copy(&q);
                    q.pc_proof.proof = t.pc_proof.proof.clone();
                    q.pc_proof.proof[0].w = A::of(q.pc_proof.proof[0].w.0 + a);
                    q.pc_proof.proof[1].w = A::of(q.pc_proof.proof[1].w.0 + b);
                    let v = verify(&vk, &pi, &q);
                    ctx.trace(1);
                    ctx.check(!v.acc(), "false-values-accepted-with-predicted-weight", || format!("{}: weight of the second opening guessed as {}", p.show(), what));
                }
            }
        }
    });
}
/// A prover of its own: any wire values, several choices of the running product, and a quotient
/// that honours only some parts of the identity. No trapdoor: all openings are true ones.
pub fn quotients(ctx: &Ctx) {
    let mut xs: Vec<(Prog, Prog, Vec<F>)> = splits(ctx).into_iter().step_by(ctx.b(3, 1)).collect();
    // gate violations with consistent wiring
    for (p, v) in targets(6) {
        for w in perturb(&v) {
            if !p.sat(&w) {
                xs.push((p.clone(), p.clone(), w));
            }
        }
    }
    ctx.bound(format!("prover of its own on {} (circuit, violating wire values): 4 choices of the running product x 12 choices of identity parts and powers x 2 choices of the combined value", xs.len()));
    par_for(&xs, |_, (a, b, v)| {
        let csa = a.composer(&vec![F::zero(); a.nv]);
        let csb = b.composer(v);
        let (_, vk) = match keys(&csa, 11) {
            Ok(k) => k,
            Err(_) => return,
        };
        let pi = csb.public_inputs().to_vec();
        let (s, w) = match (csa.compose(&ks()), csb.synthesize()) {
            (Ok(s), Ok(w)) => (s, w),
            _ => return,
        };
        let d = Dom::new(vk.info.n);
        let n = d.n;
        let k = ks();
        let rk = &vk.rk.vk;
        let trap = rk.beta_h.0 * rk.h.0.inverse().unwrap();
        let com = |p: &Poly<F>| ark_poly_commit::marlin_pc::Commitment::<E> { comm: ark_poly_commit::kzg10::Commitment(A::of(p.evaluate(&trap) * rk.g.0)), shifted_comm: None };
        let wires = [&w.w_0, &w.w_1, &w.w_2, &w.w_3];
        let wp: Vec<Poly<F>> = wires.iter().map(|x| d.poly(x)).collect();
        let q: Vec<Poly<F>> = s.iter().map(|x| d.poly(x)).collect(); // q_0..q_3 q_m q_c q_arith sigma_0..3
        let pip = d.poly(&pi);
        let blank = Poly::<F>::from_coefficients_vec(vec![]);
        let mk = |z: &Poly<F>, t: &[Poly<F>], e: Vec<F>| Proof::<F, PC> {
            commitments: vec![wp.iter().map(com).collect(), vec![com(z)], t.iter().map(com).collect()],
            evaluations: e,
            pc_proof: ark_poly_commit::BatchLCProof { proof: vec![ark_poly_commit::kzg10::Proof { w: A::of(F::zero()), random_v: None }; 2], evals: None },
        };
        let none = vec![blank.clone(), blank.clone(), blank.clone(), blank.clone()];
        let e0 = vec![F::zero(); 11];
        let c1 = match listen(&vk, &pi, &mk(&blank, &none, e0.clone())) {
            Some(c) => c,
            None => {
                ctx.count("transcript not understood", 1);
                return;
            }
        };
        let sig = [&s.sigma_0, &s.sigma_1, &s.sigma_2, &s.sigma_3];
        let num = |i: usize| (0..4).map(|j| wires[j][i] + k[j] * c1.beta * d.d.element(i) + c1.gamma).product::<F>();
        let den = |i: usize| (0..4).map(|j| wires[j][i] + c1.beta * sig[j][i] + c1.gamma).product::<F>();
        let chain = |c: F, merged: bool| -> Vec<F> {
            let mut z = vec![c];
            for i in 0..n {
                let extra = if merged && i == 0 { c - F::one() } else { F::zero() };
                z.push((z[i] * num(i) + extra) * den(i).inverse().unwrap_or_else(F::zero));
            }
            z
        };
        let mut zs: Vec<(&str, Vec<F>)> = vec![("zero", vec![F::zero(); n]), ("one", vec![F::one(); n]), ("product", chain(F::one(), false)[..n].to_vec())];
        // start anywhere, the gap of the product hidden in the starting condition
        let gap = |c: F| {
            let z = chain(c, true);
            z[n] - z[0]
        };
        if let Some(i) = (gap(F::one()) - gap(F::zero())).inverse() {
            zs.push(("shifted start", chain(-gap(F::zero()) * i, true)[..n].to_vec()));
        }
        for (zn, z) in &zs {
            let zp = d.poly(z);
            let c2 = match listen(&vk, &pi, &mk(&zp, &none, e0.clone())) {
                Some(c) => c,
                None => continue,
            };
            let zw = Poly::from_coefficients_vec(zp.coeffs.iter().enumerate().map(|(i, x)| *x * d.d.element(1).pow([i as u64])).collect());
            let lin = |p: &Poly<F>, m: &Poly<F>, beta: F| &(p + &scale(m, beta)) + &Poly::from_coefficients_vec(vec![c1.gamma]);
            let x = Poly::from_coefficients_vec(vec![F::zero(), F::one()]);
            let mut pn = zp.clone();
            let mut pd = zw.clone();
            for j in 0..4 {
                pn = &pn * &lin(&wp[j], &scale(&x, k[j]), c1.beta);
                pd = &pd * &lin(&wp[j], &q[7 + j], c1.beta);
            }
            let perm = scale(&(&pn - &pd), c2.alpha);
            let mut ar = &(&q[4] * &(&wp[1] * &wp[2])) + &(&q[5] + &pip);
            for j in 0..4 {
                ar = &ar + &(&q[j] * &wp[j]);
            }
            let arith = &ar * &q[6];
            let mut l1v = vec![F::zero(); n];
            l1v[0] = F::one();
            let l1 = d.poly(&l1v);
            for bits in 1..8u8 {
                for pow in [2u64, 1] {
                    let ps = Parts { arith: bits & 1 != 0, perm: bits & 2 != 0, start: bits & 4 != 0, pow };
                    if pow == 1 && !ps.start {
                        continue;
                    }
                    let start = scale(&(&(&zp - &Poly::from_coefficients_vec(vec![F::one()])) * &l1), c2.alpha.pow([pow]));
                    let mut sum = blank.clone();
                    for (on, p) in [(ps.arith, &arith), (ps.perm, &perm), (ps.start, &start)] {
                        if on {
                            sum = &sum + p;
                        }
                    }
                    // quotient by X^n - 1, remainder dropped
                    let mut t = vec![F::zero(); 4 * n];
                    let cf = &sum.coeffs;
                    for i in 0..cf.len().saturating_sub(n) {
                        let mut m = F::zero();
                        let mut j = i + n;
                        while j < cf.len() {
                            m += cf[j];
                            j += n;
                        }
                        if i < t.len() {
                            t[i] = m;
                        }
                    }
                    let tp: Vec<Poly<F>> = t.chunks(n).map(|c| Poly::from_coefficients_vec(c.to_vec())).collect();
                    let c3 = match listen(&vk, &pi, &mk(&zp, &tp, e0.clone())) {
                        Some(c) => c,
                        None => continue,
                    };
                    let y = c3.zeta;
                    let yn = y.pow([n as u64]);
                    let te = tp.iter().rev().fold(F::zero(), |a, p| a * yn + p.evaluate(&y));
                    let mut e = vec![F::zero(); 11];
                    e[at("q_arith")] = q[6].evaluate(&y);
                    for j in 0..3 {
                        e[at("sigma_0") + j] = q[7 + j].evaluate(&y);
                    }
                    for j in 0..4 {
                        e[at("w_0") + j] = wp[j].evaluate(&y);
                    }
                    e[at("t")] = te;
                    e[at("z")] = zp.evaluate(&(y * d.d.element(1)));
                    let true_r: F = lc(&d, &c3, &e, ps)
                        .iter()
                        .map(|(l, kk)| {
                            *kk * match *l {
                                "z" => zp.evaluate(&y),
                                l => q[vk.labels.iter().position(|x| x == l).unwrap()].evaluate(&y),
                            }
                        })
                        .sum();
                    e[at("r")] = true_r;
                    let rest = residual(&d, &c3, &e, &pip, ALL);
                    for r in [true_r, true_r + rest] {
                        let mut e = e.clone();
                        e[at("r")] = r;
                        let mut p = mk(&zp, &tp, e);
                        let c4 = match listen(&vk, &pi, &p) {
                            Some(c) => c,
                            None => continue,
                        };
                        // openings of the true values
                        open(&vk, &mut p, &d, &c4, ps, Some((at("r"), true_r)));
                        ctx.step(1);
                        ctx.trace(1);
                        ctx.state(&(a, vs(v), *zn, bits, pow, to_w(r)));
                        let g = verify(&vk, &pi, &p);
                        ctx.check(!g.acc(), "violated-circuit-accepted", || {
                            format!("{} with wires of {} at {}: running product '{}', parts {:?}", a.show(), b.show(), vs(v), zn, ps)
                        });
                    }
                }
            }
        }
    });
}
fn scale(p: &Poly<F>, k: F) -> Poly<F> {
    Poly::from_coefficients_vec(p.coeffs.iter().map(|c| *c * k).collect())
}
