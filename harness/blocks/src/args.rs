//! E01: the commitment arguments the larger proof systems are built from, each on its own.
use ark_ff::{Field, One, Zero};
use mccore::toy::*;
use mccore::*;
use mcfs::{causal_but, first_affected, Causal, Subject};
use merlin::mc::{logged, scripted};
use merlin::Transcript;
use std::sync::Arc;

type Fr<C> = FrOf<C>;
/// one statement of one argument: words of the statement, words of the proof
pub struct Blk<F> {
    pub name: String,
    pub stmt: Vec<F>,
    /// statement words that take part in the interactive exploration (the others are redundant with them)
    pub open: usize,
    /// statement words the claim does not depend on
    pub inert: Vec<usize>,
    /// the first `first` words of the proof are sent before the last challenge
    pub first: usize,
    pub len: usize,
    pub challenges: usize,
    pub prove: Box<dyn Fn(u64) -> Vec<F> + Send + Sync>,
    pub verify: Box<dyn Fn(&[F], &[F]) -> bool + Send + Sync>,
    /// the equations of the argument: statement, proof, challenges
    pub equations: Box<dyn Fn(&[F], &[F], &[F]) -> bool + Send + Sync>,
}
/// discrete logarithms of the generators
#[derive(Clone)]
pub struct Gens<F> {
    g: Vec<F>,
    q: F,
    h: F,
}
impl<F: Field + From<u64>> Gens<F> {
    fn new(n: usize, big: bool) -> Self {
        let m = |k: u64| if big { F::from((0x9e37_79b9_7f4a_7c15_u64.wrapping_mul(2 * k + 3) ^ 0x5555_1234_5678_9abc).wrapping_mul(0xd6e8_feb8_6659_fd93) >> 3) } else { F::from(2 + 3 * k) };
        Gens { g: (0..n as u64).map(|k| m(k + 2)).collect(), q: m(0), h: m(1) }
    }
}
fn dot<F: Field>(a: &[F], b: &[F]) -> F {
    a.iter().zip(b).map(|(x, y)| *x * y).sum()
}
fn com<F: Field>(g: &[F], v: &[F], h: F, r: F) -> F {
    dot(g, v) + h * r
}
/// folding coefficients: position i takes x_j for every set bit (from the top) and 1/x_j otherwise
fn folds<F: Field>(x: &[F]) -> Vec<F> {
    let k = x.len();
    (0..1usize << k).map(|i| (0..k).map(|j| if i >> (k - 1 - j) & 1 == 1 { x[j] } else { x[j].inverse().unwrap() }).product()).collect()
}
fn eqs<F: Field>(r: &[F]) -> Vec<F> {
    let k = r.len();
    (0..1usize << k).map(|i| (0..k).map(|j| if i >> (k - 1 - j) & 1 == 1 { r[j] } else { F::one() - r[j] }).product()).collect()
}
macro_rules! arguments {
    ($m:ident, $krate:ident) => {
        pub mod $m {
            use super::*;
            use $krate::commitment::*;
            use $krate::params::*;
            const NAME: &str = stringify!($m);
            fn one<C: ToyCfg>(g: &Gens<Fr<C>>) -> MultiCommitmentSetupParameters<Toy<C>> {
                MultiCommitmentSetupParameters { n: 1, generators: vec![A::of(g.q)], h: A::of(g.h) }
            }
            fn poly<C: ToyCfg>(g: &Gens<Fr<C>>) -> PolyCommitmentSetupParameters<Toy<C>> {
                PolyCommitmentSetupParameters {
                    n: g.g.len(),
                    gen_n: MultiCommitmentSetupParameters { n: g.g.len(), generators: g.g.iter().map(|x| A::of(*x)).collect(), h: A::of(g.h) },
                    gen_1: one::<C>(g),
                }
            }
            pub fn equal<C: ToyCfg>(g: &Gens<Fr<C>>, v: [Fr<C>; 4]) -> Blk<Fr<C>> {
                let (g1, g2, g3) = (g.clone(), g.clone(), g.clone());
                Blk {
                    name: format!("{} equality of {} and {}", NAME, v[0], v[2]),
                    stmt: vec![com(&[g.q], &v[..1], g.h, v[1]), com(&[g.q], &v[2..3], g.h, v[3])],
                    open: 1,
                    inert: vec![],
                    first: 1,
                    len: 2,
                    challenges: 1,
                    prove: Box::new(move |s| {
                        let p = EqProof::<Toy<C>>::prover(&one::<C>(&g1), v[0], v[1], v[2], v[3], &mut Coins::seeded(s), &mut Transcript::new(b"t"));
                        vec![p.alpha.0, p.z]
                    }),
                    verify: Box::new(move |st, p| EqProof::<Toy<C>> { alpha: A::of(p[0]), z: p[1] }.verify(&one::<C>(&g2), A::of(st[0]), A::of(st[1]), &mut Transcript::new(b"t"))),
                    equations: Box::new(move |st, p, c| g3.h * p[1] == c[0] * (st[0] - st[1]) + p[0]),
                }
            }
            pub fn knowledge<C: ToyCfg>(g: &Gens<Fr<C>>, v: [Fr<C>; 2]) -> Blk<Fr<C>> {
                let (g1, g2, g3) = (g.clone(), g.clone(), g.clone());
                let st = com(&[g.q], &v[..1], g.h, v[1]);
                Blk {
                    name: format!("{} knowledge of {}", NAME, v[0]),
                    stmt: vec![st],
                    open: 1,
                    inert: vec![],
                    first: 1,
                    len: 3,
                    challenges: 1,
                    prove: Box::new(move |s| {
                        let (p, c) = KnowledgeProof::<Toy<C>>::prover(&one::<C>(&g1), v[0], v[1], &mut Coins::seeded(s), &mut Transcript::new(b"t"));
                        assert!(c.0 == st, "returned commitment");
                        vec![p.t_comm.0, p.z1, p.z2]
                    }),
                    verify: Box::new(move |st, p| KnowledgeProof::<Toy<C>> { t_comm: A::of(p[0]), z1: p[1], z2: p[2] }.verify(&one::<C>(&g2), A::of(st[0]), &mut Transcript::new(b"t"))),
                    equations: Box::new(move |st, p, c| g3.q * p[1] + g3.h * p[2] == c[0] * st[0] + p[0]),
                }
            }
            /// v = x, blind, y, blind, product, blind
            pub fn product<C: ToyCfg>(g: &Gens<Fr<C>>, v: [Fr<C>; 6]) -> Blk<Fr<C>> {
                let (g1, g2, g3) = (g.clone(), g.clone(), g.clone());
                let st: Vec<Fr<C>> = (0..3).map(|i| com(&[g.q], &v[2 * i..2 * i + 1], g.h, v[2 * i + 1])).collect();
                let st1 = st.clone();
                Blk {
                    name: format!("{} product {} * {} = {}", NAME, v[0], v[2], v[4]),
                    stmt: st,
                    open: 3,
                    inert: vec![],
                    first: 3,
                    len: 8,
                    challenges: 1,
                    prove: Box::new(move |s| {
                        let (p, x, y, z) = ProductProof::<Toy<C>>::prover(&one::<C>(&g1), v[0], v[1], v[2], v[3], v[4], v[5], &mut Coins::seeded(s), &mut Transcript::new(b"t"));
                        assert!([x.0, y.0, z.0] == st1[..], "returned commitments");
                        let mut o = vec![p.comm_alpha.0, p.comm_beta.0, p.comm_delta.0];
                        o.extend(p.z);
                        o
                    }),
                    verify: Box::new(move |st, p| {
                        ProductProof::<Toy<C>> { comm_alpha: A::of(p[0]), comm_beta: A::of(p[1]), comm_delta: A::of(p[2]), z: p[3..].to_vec() }.verify(&one::<C>(&g2), A::of(st[0]), A::of(st[1]), A::of(st[2]), &mut Transcript::new(b"t"))
                    }),
                    equations: Box::new(move |st, p, c| {
                        p.len() == 8
                            && p[0] + c[0] * st[0] == g3.q * p[3] + g3.h * p[4]
                            && p[1] + c[0] * st[1] == g3.q * p[5] + g3.h * p[6]
                            && p[2] + c[0] * st[2] == st[0] * p[5] + g3.h * p[7]
                    }),
                }
            }
            pub fn dotted<C: ToyCfg>(g: &Gens<Fr<C>>, x: &[Fr<C>], rx: Fr<C>, a: &[Fr<C>], y: Fr<C>, ry: Fr<C>) -> Blk<Fr<C>> {
                let (g1, g2, g3) = (g.clone(), g.clone(), g.clone());
                let (x1, a1, a2, a3) = (x.to_vec(), a.to_vec(), a.to_vec(), a.to_vec());
                let st = vec![com(&g.g, x, g.h, rx), com(&[g.q], &[y], g.h, ry)];
                let st1 = st.clone();
                Blk {
                    name: format!("{} <{}, {}> = {}", NAME, vs(x), vs(a), y),
                    stmt: st,
                    open: 2,
                    inert: vec![],
                    first: 2,
                    len: 4 + x.len(),
                    challenges: 1,
                    prove: Box::new(move |s| {
                        let (p, cx, cy) = DotProductProof::<Toy<C>>::prover(&poly::<C>(&g1), &x1, rx, &a1, y, ry, &mut Coins::seeded(s), &mut Transcript::new(b"t"));
                        assert!([cx.0, cy.0] == st1[..], "returned commitments");
                        let mut o = vec![p.delta.0, p.beta.0, p.z_delta, p.z_beta];
                        o.extend(p.z_vec);
                        o
                    }),
                    verify: Box::new(move |st, p| {
                        DotProductProof::<Toy<C>> { delta: A::of(p[0]), beta: A::of(p[1]), z_delta: p[2], z_beta: p[3], z_vec: p[4..].to_vec() }.verify(&poly::<C>(&g2), A::of(st[0]), A::of(st[1]), &a2, &mut Transcript::new(b"t"))
                    }),
                    equations: Box::new(move |st, p, c| {
                        p.len() == 4 + a3.len()
                            && c[0] * st[0] + p[0] == com(&g3.g, &p[4..], g3.h, p[2])
                            && c[0] * st[1] + p[1] == com(&[g3.q], &[dot(&p[4..], &a3)], g3.h, p[3])
                    }),
                }
            }
            fn log_words<C: ToyCfg>(p: LogDotProductProof<Toy<C>>) -> Vec<Fr<C>> {
                let mut o: Vec<Fr<C>> = p.bullet_reduce_proof.l_vec.iter().chain(&p.bullet_reduce_proof.r_vec).map(|x| x.0).collect();
                o.extend([p.delta.0, p.beta.0, p.z1, p.z2]);
                o
            }
            fn log_proof<C: ToyCfg>(p: &[Fr<C>]) -> LogDotProductProof<Toy<C>> {
                let k = (p.len() - 4) / 2;
                let pts = |s: &[Fr<C>]| s.iter().map(|x| A::of(*x)).collect();
                LogDotProductProof { bullet_reduce_proof: BulletReduceProof { l_vec: pts(&p[..k]), r_vec: pts(&p[k..2 * k]) }, delta: A::of(p[2 * k]), beta: A::of(p[2 * k + 1]), z1: p[2 * k + 2], z2: p[2 * k + 3] }
            }
            fn log_equation<F: Field>(g: &Gens<F>, cx: F, cy: F, a: &[F], p: &[F], c: &[F]) -> bool {
                let k = (p.len() - 4) / 2;
                if 1 << k != a.len() {
                    return false;
                }
                let s = folds(&c[..k]);
                let (ah, gh) = (dot(&s, a), dot(&s, &g.g));
                let gamma = cx + cy + (0..k).map(|j| c[j].square() * p[j] + c[j].square().inverse().unwrap() * p[k + j]).sum::<F>();
                (gamma * c[k] + p[2 * k + 1]) * ah + p[2 * k] == (gh + g.q * ah) * p[2 * k + 2] + g.h * p[2 * k + 3]
            }
            pub fn logdot<C: ToyCfg>(g: &Gens<Fr<C>>, x: &[Fr<C>], rx: Fr<C>, a: &[Fr<C>], y: Fr<C>, ry: Fr<C>) -> Blk<Fr<C>> {
                let (g1, g2, g3) = (g.clone(), g.clone(), g.clone());
                let (x1, a1, a2, a3) = (x.to_vec(), a.to_vec(), a.to_vec(), a.to_vec());
                let st = vec![com(&g.g, x, g.h, rx), com(&[g.q], &[y], g.h, ry)];
                let st1 = st.clone();
                let k = x.len().trailing_zeros() as usize;
                Blk {
                    name: format!("{} log <{}, {}> = {}", NAME, vs(x), vs(a), y),
                    stmt: st,
                    open: 1,
                    inert: vec![],
                    first: 2 * k + 2,
                    len: 2 * k + 4,
                    challenges: k + 1,
                    prove: Box::new(move |s| {
                        let (p, cx, cy) = LogDotProductProof::<Toy<C>>::prover(&poly::<C>(&g1), &x1, rx, &a1, y, ry, &mut Coins::seeded(s), &mut Transcript::new(b"t"));
                        assert!([cx.0, cy.0] == st1[..], "returned commitments");
                        log_words::<C>(p)
                    }),
                    verify: Box::new(move |st, p| log_proof::<C>(p).verify(&poly::<C>(&g2), A::of(st[0]), A::of(st[1]), &a2, &mut Transcript::new(b"t"))),
                    equations: Box::new(move |st, p, c| log_equation(&g3, st[0], st[1], &a3, p, c)),
                }
            }
            /// evaluation of a committed multilinear polynomial; statement: row commitments, evaluation commitment
            pub fn opening<C: ToyCfg>(g: &Gens<Fr<C>>, f: &[Fr<C>], blinds: &[Fr<C>], at: &[Fr<C>], y: Fr<C>, ry: Fr<C>) -> Blk<Fr<C>> {
                let (g1, g2, g3) = (g.clone(), g.clone(), g.clone());
                let (f1, b1, at1, at2, at3) = (f.to_vec(), blinds.to_vec(), at.to_vec(), at.to_vec(), at.to_vec());
                let m = at.len();
                let (rows, cols) = (1usize << (m / 2), 1usize << (m - m / 2));
                let mut st: Vec<Fr<C>> = (0..rows).map(|i| com(&g.g, &f[i * cols..(i + 1) * cols], g.h, blinds.get(i).cloned().unwrap_or(Fr::<C>::zero()))).collect();
                st.push(com(&[g.q], &[y], g.h, ry));
                let st1 = st.clone();
                let k = m - m / 2;
                Blk {
                    name: format!("{} opening of {} at {} to {}", NAME, vs(f), vs(at), y),
                    stmt: st,
                    open: 0,
                    inert: (0..rows).filter(|i| eqs(&at[..m / 2])[*i].is_zero()).collect(),
                    first: 2 * k + 2,
                    len: 2 * k + 4,
                    challenges: k + 1,
                    prove: Box::new(move |s| {
                        let (p, cy) = LogDotProductProof::<Toy<C>>::reduce_prover(&poly::<C>(&g1), &f1, &b1, &at1, ry, y, &mut Coins::seeded(s), &mut Transcript::new(b"t"));
                        assert!(cy.0 == st1[rows], "returned commitment");
                        log_words::<C>(p)
                    }),
                    verify: Box::new(move |st, p| log_proof::<C>(p).reduce_verifier(&poly::<C>(&g2), &at2, &st[..rows].iter().map(|x| A::of(*x)).collect(), A::of(st[rows]), &mut Transcript::new(b"t"))),
                    equations: Box::new(move |st, p, c| {
                        let (l, r) = (eqs(&at3[..m / 2]), eqs(&at3[m / 2..]));
                        log_equation(&g3, dot(&l, &st[..rows]), st[rows], &r, p, c)
                    }),
                }
            }
        }
    };
}
arguments!(hyrax, zkp_hyrax);
arguments!(libra, zkp_libra);

/// Spartan's inner-product reduction closed by revealing the last values
fn spartan<C: ToyCfg>(g: &Gens<Fr<C>>, x: &[Fr<C>], r: Fr<C>, a: &[Fr<C>], y: Fr<C>) -> Blk<Fr<C>> {
    use zkp_spartan::data_structure::InnerProductProof;
    use zkp_spartan::inner_product::*;
    let (g1, g2, g3) = (g.clone(), g.clone(), g.clone());
    let (x1, a1, a2, a3) = (x.to_vec(), a.to_vec(), a.to_vec(), a.to_vec());
    let k = x.len().trailing_zeros() as usize;
    let pts = |v: &[Fr<C>]| v.iter().map(|x| A::<C, 1>::of(*x)).collect::<Vec<_>>();
    // the callers have absorbed the commitment before the reduction starts
    let after = |st: Fr<C>| {
        let mut t = Transcript::new(b"t");
        t.append_message(b"P", &val(&st).to_le_bytes());
        t
    };
    let st0 = com(&g.g, x, g.h, r) + g.q * y;
    Blk {
        name: format!("spartan inner product <{}, {}> = {}", vs(x), vs(a), y),
        stmt: vec![st0],
        open: 1,
        inert: vec![],
        first: 2 * k,
        len: 2 * k + 2,
        challenges: k,
        prove: Box::new(move |s| {
            let bl: Vec<(Fr<C>, Fr<C>)> = (0..k as u64).map(|i| (Fr::<C>::from(s + 3 * i), Fr::<C>::from(2 * s + i + 1))).collect();
            let (p, x, _, _, b) = bullet_inner_product_proof::<Toy<C>>(&pts(&g1.g), A::of(g1.q), A::of(g1.h), &x1, &a1, r, &bl, &mut after(st0)).unwrap();
            let mut o: Vec<Fr<C>> = p.l_vec.iter().chain(&p.r_vec).map(|x| x.0).collect();
            o.extend([x, b]);
            o
        }),
        verify: Box::new(move |st, p| {
            let k = (p.len() - 2) / 2;
            let pr = InnerProductProof::<Toy<C>> { l_vec: pts(&p[..k]), r_vec: pts(&p[k..2 * k]) };
            match bullet_inner_product_verify::<Toy<C>>(&pts(&g2.g), &pr, A::of(st[0]), &a2, &mut after(st[0])) {
                Ok((ah, gh, gamma)) => gamma.0 == gh.0 * p[2 * k] + g2.q * p[2 * k] * ah + g2.h * p[2 * k + 1],
                Err(_) => false,
            }
        }),
        equations: Box::new(move |st, p, c| {
            let k = (p.len() - 2) / 2;
            if 1 << k != a3.len() {
                return false;
            }
            let s = folds(&c[..k]);
            let (ah, gh) = (dot(&s, &a3), dot(&s, &g3.g));
            let gamma = st[0] + (0..k).map(|j| c[j].square() * p[j] + c[j].square().inverse().unwrap() * p[k + j]).sum::<Fr<C>>();
            gamma == gh * p[2 * k] + g3.q * p[2 * k] * ah + g3.h * p[2 * k + 1]
        }),
    }
}

fn f<C: ToyCfg>(v: i64) -> Fr<C> {
    fi::<Fr<C>>(v)
}
/// honest statements and false claims (the prover run on them all the same)
fn statements<C: ToyCfg>(big: bool, full: bool) -> (Vec<Blk<Fr<C>>>, Vec<Blk<Fr<C>>>) {
    let dom: Vec<i64> = if full { vec![0, 1, -1, 2, 5] } else { vec![0, 1, -1, 5] };
    let (mut ok, mut bad) = (vec![], vec![]);
    macro_rules! family {
        ($m:ident) => {{
            let g1 = Gens::<Fr<C>>::new(1, big);
            for t in tuples(&dom, 3) {
                ok.push($m::equal::<C>(&g1, [f::<C>(t[0]), f::<C>(t[1]), f::<C>(t[0]), f::<C>(t[2])]));
                for d in [1, -1, 3] {
                    bad.push($m::equal::<C>(&g1, [f::<C>(t[0]), f::<C>(t[1]), f::<C>(t[0] + d), f::<C>(t[2])]));
                }
            }
            for t in tuples(&dom, 2) {
                ok.push($m::knowledge::<C>(&g1, [f::<C>(t[0]), f::<C>(t[1])]));
            }
            for t in tuples(&dom, if full { 5 } else { 4 }) {
                let b3 = *t.get(4).unwrap_or(&2);
                let mk = |d: i64| [f::<C>(t[0]), f::<C>(t[1]), f::<C>(t[2]), f::<C>(t[3]), f::<C>(t[0] * t[2] + d), f::<C>(b3)];
                ok.push($m::product::<C>(&g1, mk(0)));
                for d in [1, -1, 3] {
                    bad.push($m::product::<C>(&g1, mk(d)));
                }
            }
            for n in [1usize, 2, 3, 4, 5, 8, 16] {
                let pats: Vec<Vec<i64>> = if n <= 2 { tuples(&dom, n) } else { (0..6).map(|k: usize| (0..n).map(|i| [[1, 0, -1, 2][(i + k) % 4], [0, 0, 0, 1][(i * (k + 1)) % 4], (i * i + k) as i64 - 3][k % 3]).collect()).collect() };
                for (i, x) in pats.iter().enumerate() {
                    for (j, a) in pats.iter().enumerate() {
                        let y: i64 = x.iter().zip(a).map(|(p, q)| p * q).sum();
                        let v = |w: &[i64]| w.iter().map(|q| f::<C>(*q)).collect::<Vec<_>>();
                        let (rx, ry) = (f::<C>(dom[i % dom.len()]), f::<C>(dom[j % dom.len()]));
                        // more generators than values
                        let g = Gens::<Fr<C>>::new(n + (i + j) % 3, big);
                        ok.push($m::dotted::<C>(&g, &v(x), rx, &v(a), f::<C>(y), ry));
                        bad.push($m::dotted::<C>(&g, &v(x), rx, &v(a), f::<C>(y + 1), ry));
                        // with a all zero the logarithmic argument's last equation is multiplied by zero: callers use eq vectors
                        if n.is_power_of_two() && a.iter().any(|v| *v != 0) {
                            ok.push($m::logdot::<C>(&g, &v(x), rx, &v(a), f::<C>(y), ry));
                            bad.push($m::logdot::<C>(&g, &v(x), rx, &v(a), f::<C>(y - 2), ry));
                        }
                    }
                }
            }
            for m in 0..=if full { 8usize } else { 6 } {
                for k in 0..6usize {
                    let fv: Vec<Fr<C>> = (0..1usize << m).map(|i| f::<C>([(i as i64) - 2, if i == k { 1 } else { 0 }, ((i * i) % 7) as i64][k % 3])).collect();
                    let at: Vec<Fr<C>> = (0..m).map(|i| f::<C>([[0, 1][(i + k / 3) % 2], i as i64 + 3, -(i as i64) - 1][k % 3])).collect();
                    let rows = 1usize << (m / 2);
                    let bl: Vec<Fr<C>> = if k % 2 == 0 { (0..rows).map(|i| f::<C>(i as i64 + 4)).collect() } else { vec![] };
                    let y = dot(&fv, &eqs(&at));
                    let g = Gens::<Fr<C>>::new((1usize << (m - m / 2)) + k % 2, big);
                    ok.push($m::opening::<C>(&g, &fv, &bl, &at, y, f::<C>(k as i64)));
                    bad.push($m::opening::<C>(&g, &fv, &bl, &at, y + f::<C>(1), f::<C>(k as i64)));
                    bad.push($m::opening::<C>(&g, &fv, &bl, &at, y - f::<C>(3), f::<C>(k as i64)));
                }
            }
        }};
    }
    family!(hyrax);
    family!(libra);
    for n in [1usize, 2, 4, 8, 16, 32] {
        for k in 0..4i64 {
            let x: Vec<Fr<C>> = (0..n as i64).map(|i| f::<C>((i * (k + 1)) % 5 - 1)).collect();
            let a: Vec<Fr<C>> = (0..n as i64).map(|i| f::<C>(i * i - k)).collect();
            let y = dot(&x, &a);
            let g = Gens::<Fr<C>>::new(n + (k as usize) % 2, big);
            ok.push(spartan::<C>(&g, &x, f::<C>(k), &a, y));
            bad.push(spartan::<C>(&g, &x, f::<C>(k), &a, y + f::<C>(1)));
        }
    }
    (ok, bad)
}
fn kind(name: &str) -> String {
    let mut it = name.split(' ');
    let (a, b) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
    if b.starts_with('<') { format!("{} dot", a) } else { format!("{} {}", a, b) }
}
fn run<F: Field>(ctx: &Ctx, b: &Blk<F>, s: &[F], p: &[F]) -> bool {
    ctx.step(1);
    match guard(|| (b.verify)(s, p)) {
        Ok(v) => v,
        Err(e) => {
            ctx.violate(&format!("panic {}", kind(&b.name)), || format!("{}: statement {} proof {}: {}", b.name, vs(s), vs(p), e));
            false
        }
    }
}
pub fn e01(ctx: &Ctx) {
    ctx.assume("toy groups over a 61-bit field (conformance: 17 elements); generators with fixed unrelated logarithms");
    type B = CfgBig;
    let (ok, bad) = statements::<B>(true, ctx.thorough());
    // honest proofs, and every word of them changed
    par_for(&ok, |_, b| {
        for seed in 0..ctx.b(2u64, 6) {
            let pr = match guard(|| (b.prove)(seed)) {
                Ok(p) => p,
                Err(e) => {
                    ctx.violate(&format!("prover-fails {}", kind(&b.name)), || format!("{} coins {}: {}", b.name, seed, e));
                    continue;
                }
            };
            ctx.trace(1);
            ctx.state(&("honest", &b.name, seed));
            let (acc, log) = logged(|| run(ctx, b, &b.stmt, &pr));
            ctx.check(acc, &format!("honest-rejected {}", kind(&b.name)), || format!("{} coins {}: proof {}", b.name, seed, vs(&pr)));
            if !acc || pr.len() != b.len {
                ctx.check(!acc, &format!("proof-size {}", kind(&b.name)), || format!("{}: {} words", b.name, pr.len()));
                continue;
            }
            if seed > 0 {
                continue;
            }
            let n = log.iter().filter(|e| matches!(e, merlin::mc::Ev::Challenge(..))).count();
            ctx.check(n == b.challenges, &format!("challenge-count {}", kind(&b.name)), || format!("{}: {} challenges", b.name, n));
            for d in [f::<B>(1), f::<B>(-1), f::<B>(1 << 20)] {
                for i in (0..b.stmt.len()).filter(|i| !b.inert.contains(i)) {
                    let mut s = b.stmt.clone();
                    s[i] += d;
                    let (a, l) = logged(|| run(ctx, b, &s, &pr));
                    ctx.check(!a, &format!("other-statement {}", kind(&b.name)), || format!("{}: word {} of the statement changed by {}", b.name, i, d));
                    let bound = b.challenges == 0 || first_affected(&log, &l).is_ok();
                    ctx.check(bound, &format!("statement-unbound {}", kind(&b.name)), || format!("{}: no challenge depends on word {} of the statement", b.name, i));
                }
                for i in 0..pr.len() {
                    let mut p = pr.clone();
                    p[i] += d;
                    let (a, l) = logged(|| run(ctx, b, &b.stmt, &p));
                    ctx.check(!a, &format!("altered-proof {}", kind(&b.name)), || format!("{}: word {} of the proof changed by {}", b.name, i, d));
                    if i < b.first {
                        ctx.check(first_affected(&log, &l).is_ok(), &format!("message-unbound {}", kind(&b.name)), || format!("{}: no challenge depends on word {} of the proof", b.name, i));
                    }
                }
            }
        }
    });
    par_for(&bad, |_, b| {
        for seed in 0..ctx.b(2u64, 6) {
            ctx.trace(1);
            ctx.state(&("false", &b.name, seed));
            // a prover that refuses is as good as a rejection
            if let Ok(pr) = guard(|| (b.prove)(seed)) {
                let a = run(ctx, b, &b.stmt, &pr);
                ctx.check(!a, &format!("false-claim-accepted {}", kind(&b.name)), || format!("{} coins {}: proof {}", b.name, seed, vs(&pr)));
            }
        }
    });
    ctx.bound(format!("{} true and {} false statements: equality, knowledge, product, dot products of 1..16 values, evaluations of polynomials in 0..{} variables (libra, hyrax), Spartan's reduction up to 32 values", ok.len(), bad.len(), ctx.b(6, 8)));
    // proofs for other public vectors / points
    let pairs: Vec<(usize, usize)> = (0..ok.len()).flat_map(|i| (i + 1..(i + 40).min(ok.len())).map(move |j| (i, j))).collect();
    par_for(&pairs, |_, &(i, j)| {
        let (a, b) = (&ok[i], &ok[j]);
        if kind(&a.name) != kind(&b.name) || a.len != b.len || a.stmt.len() != b.stmt.len() || a.name == b.name {
            return;
        }
        if let Ok(p) = guard(|| (a.prove)(1)) {
            // statement of a under the public data of b: accepted only when that is true as well
            let acc = run(ctx, b, &a.stmt, &p);
            if acc {
                // same claim: the reference equations of b hold for honest challenges only if the claim is true under b
                let (_, log) = logged(|| (b.verify)(&a.stmt, &p));
                let c: Vec<Fr<B>> = log.iter().filter_map(|e| if let merlin::mc::Ev::Challenge(_, c) = e { Fr::<B>::from_random_bytes(&c[..31]) } else { None }).collect();
                ctx.check((b.equations)(&a.stmt, &p, &c), &format!("equations-disagree {}", kind(&b.name)), || format!("{} presented as {}", a.name, b.name));
            }
        }
    });
    // all proofs over a small domain against the equations of the argument
    type S = Cfg17;
    let dom: Vec<Fr<S>> = [0i64, 1, 5].iter().map(|v| f::<S>(*v)).collect();
    let mut small: Vec<Blk<Fr<S>>> = vec![];
    let g = Gens::<Fr<S>>::new(4, false);
    for a in [[1i64, 0], [2, 5], [0, 0]] {
        let a: Vec<Fr<S>> = a.iter().map(|v| f::<S>(*v)).collect();
        let x = vec![f::<S>(3), f::<S>(1)];
        let z = f::<S>(0);
        small.push(hyrax::dotted::<S>(&g, &x, z, &a, z, z));
        small.push(libra::dotted::<S>(&g, &x, z, &a, z, z));
        small.push(hyrax::dotted::<S>(&g, &x[..1], z, &a[..1], z, z));
        small.push(hyrax::logdot::<S>(&g, &x, z, &a, z, z));
        small.push(libra::logdot::<S>(&g, &x, z, &a, z, z));
        small.push(hyrax::logdot::<S>(&g, &x[..1], z, &a[..1], z, z));
        small.push(libra::logdot::<S>(&g, &x[..1], z, &a[..1], z, z));
        small.push(spartan::<S>(&g, &x, z, &a, z));
        small.push(spartan::<S>(&g, &x[..1], z, &a[..1], z));
        small.push(hyrax::opening::<S>(&g, &[f::<S>(1); 4], &[], &a, z, z));
        small.push(libra::opening::<S>(&g, &[f::<S>(1); 4], &[], &a, z, z));
        small.push(hyrax::opening::<S>(&g, &[f::<S>(1); 2], &[], &a[..1], z, z));
    }
    small.push(hyrax::equal::<S>(&g, [f::<S>(0); 4]));
    small.push(libra::equal::<S>(&g, [f::<S>(0); 4]));
    small.push(hyrax::knowledge::<S>(&g, [f::<S>(0); 2]));
    small.push(libra::knowledge::<S>(&g, [f::<S>(0); 2]));
    small.push(hyrax::product::<S>(&g, [f::<S>(0); 6]));
    small.push(libra::product::<S>(&g, [f::<S>(0); 6]));
    let whole: Vec<Fr<S>> = (0..17).map(|v| f::<S>(v)).collect();
    let jobs: Vec<(usize, Fr<S>, Vec<Fr<S>>)> = small
        .iter()
        .enumerate()
        .flat_map(|(k, b)| {
            let cd: Vec<Fr<S>> = ctx.b(vec![1i64, 3], vec![1i64, 3, 5]).iter().map(|v| f::<S>(*v)).collect();
            let cs = tuples(&cd, b.challenges);
            let d = if b.stmt.len() + b.len <= 5 { whole.clone() } else { dom.clone() };
            let mut o = vec![];
            for w in d {
                for c in &cs {
                    o.push((k, w, c.clone()));
                }
            }
            o
        })
        .collect();
    par_for(&jobs, |_, (k, w0, c)| {
        let b = &small[*k];
        let n = b.stmt.len() + b.len;
        let d: Vec<Fr<S>> = if n <= ctx.b(4, 5) {
            whole.clone()
        } else if n <= ctx.b(9, 12) {
            dom.clone()
        } else {
            dom[1..].to_vec()
        };
        let mut idx = vec![0usize; n - 1];
        let (mut acc, mut tot) = (0u64, 0u64);
        loop {
            let mut w = vec![*w0];
            w.extend(idx.iter().map(|i| d[*i]));
            let (s, p) = w.split_at(b.stmt.len());
            let cc: Vec<u8> = c.iter().map(|x| val(x) as u8).collect();
            let got = guard(|| {
                scripted(
                    Box::new(move |_, n, out| {
                        for o in out.iter_mut() {
                            *o = 0;
                        }
                        out[0] = cc[n];
                    }),
                    || (b.verify)(s, p),
                )
            });
            tot += 1;
            let want = (b.equations)(s, p, c);
            acc += want as u64;
            match got {
                Ok(g) if g == want => {}
                Ok(g) => ctx.violate(&format!("equations-disagree {}", kind(&b.name)), || format!("{}: statement {} proof {} challenges {}: verdict {} but equations {}", b.name, vs(s), vs(p), vs(c), g, want)),
                Err(e) => ctx.violate(&format!("panic {}", kind(&b.name)), || format!("{}: statement {} proof {}: {}", b.name, vs(s), vs(p), e)),
            }
            let mut i = 0;
            while i < idx.len() {
                idx[i] += 1;
                if idx[i] < d.len() {
                    break;
                }
                idx[i] = 0;
                i += 1;
            }
            if i == idx.len() {
                break;
            }
        }
        ctx.step(tot);
        ctx.trace(acc);
        ctx.count("proofs compared with the equations", tot);
        ctx.count("of them satisfying", acc);
        ctx.state(&("eq", *k, val(w0), c.iter().map(|x| val(x)).collect::<Vec<_>>()));
    });
    ctx.bound(format!("{} argument instances over F17: every statement and proof over a small domain, every challenge vector of {{1,3}}(,5), verdict against the equations", small.len()));
    // malformed: lists of other lengths
    par_for(&ok, |i, b| {
        if !(b.name.contains("log") || b.name.contains("opening") || b.name.contains("inner") || b.name.contains('<') || b.name.contains("product")) || i % 3 != 0 {
            return;
        }
        if let Ok(p) = guard(|| (b.prove)(1)) {
            let least = if b.name.contains("product") && !b.name.contains("inner") { 3 } else if b.name.contains("inner") { 2 } else { 4 };
            for cut in 1..=3usize {
                if p.len() >= cut + least {
                    let q = p[..p.len() - cut].to_vec();
                    let a = run(ctx, b, &b.stmt, &q);
                    ctx.check(!a, &format!("shortened-proof {}", kind(&b.name)), || format!("{}: {} words fewer", b.name, cut));
                }
                let mut q = p.clone();
                q.extend(vec![f::<B>(0); cut]);
                let a = run(ctx, b, &b.stmt, &q);
                if !(b.name.contains("opening") || b.name.contains("log") || b.name.contains("inner")) || cut == 2 {
                    ctx.check(!a, &format!("extended-proof {}", kind(&b.name)), || format!("{}: {} words more", b.name, cut));
                }
            }
        }
    });
    // the arguments as interactive protocols
    let mut seen = std::collections::BTreeMap::<(String, usize), usize>::new();
    let mut subjects: Vec<Vec<Subject<Fr<B>>>> = (0..5).map(|_| vec![]).collect();
    for b in ok {
        let e = seen.entry((kind(&b.name), b.len)).or_insert(0);
        *e += 1;
        if *e > ctx.b(1, 4) || b.len > 20 || b.stmt.iter().any(|x| x.is_zero()) {
            if b.stmt.iter().any(|x| x.is_zero()) {
                *e -= 1;
            }
            continue;
        }
        let b = Arc::new(b);
        let (b1, b2) = (b.clone(), b.clone());
        let schema: &'static str = Box::leak("w".repeat(b.len).into_boxed_str());
        let fixed = b.stmt[b.open..].to_vec();
        let group = if b.name.contains(" log ") || b.name.contains("opening") { b.challenges } else { 0 };
        if group > 4 {
            continue;
        }
        subjects[group].push(Subject {
            name: b.name.clone(),
            schema,
            publics: b.stmt[..b.open].to_vec(),
            prove: Box::new(move |s| Ok((b1.prove)(s).iter().flat_map(|x| val(x).to_le_bytes()).collect())),
            verify: Box::new(move |w, p| {
                let words: Vec<Fr<B>> = w.chunks(8).map(|c| Fr::<B>::from(u64::from_le_bytes(c.try_into().unwrap()))).collect();
                let mut s = p.to_vec();
                s.extend(&fixed);
                match guard(|| (b2.verify)(&s, &words)) {
                    Ok(true) => Verdict::Accept,
                    _ => Verdict::Reject("rejected".into()),
                }
            }),
        });
    }
    // delta and beta of the logarithmic arguments belong to one round and enter as a_hat * beta + delta, with a_hat known by then:
    // any pair with the same combination is the same message
    fn one_round<const K: usize>(p: &[usize], q: &[usize]) -> bool {
        p == [2 * K] && q == [2 * K + 1] || q == [2 * K] && p == [2 * K + 1]
    }
    let groups: [fn(&[usize], &[usize]) -> bool; 5] = [|_, _| false, one_round::<0>, one_round::<1>, one_round::<2>, one_round::<3>];
    for (s, redundant) in subjects.iter().zip(groups) {
        causal_but(ctx, s, &Causal { window: 40, nearest: 4 }, redundant);
    }
}
