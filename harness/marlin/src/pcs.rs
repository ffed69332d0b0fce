//! M03: the polynomial commitment scheme, driven through `zkp_marlin::pc::PC`.
use crate::*;
use ark_poly::{univariate::DensePolynomial, Polynomial, UVPolynomial};
use zkp_marlin::pc::{CommitterKey, Evaluations, LabeledCommitment, LabeledPolynomial, Proof as Open, QuerySet, Randomness, VerifierKey, PC};

type P = DensePolynomial<FBig>;
type LP = LabeledPolynomial<'static, FBig>;
type LC = LabeledCommitment<EBig>;
fn f(x: i64) -> FBig {
    fi::<FBig>(x)
}
fn poly(c: &[i64]) -> P {
    P::from_coefficients_vec(c.iter().map(|x| f(*x)).collect())
}
fn keys(max: usize, d: usize, seed: u64) -> (CommitterKey<EBig>, VerifierKey<EBig>) {
    let pp = PC::<EBig>::setup(max, &mut Coins::seeded(seed)).unwrap();
    PC::<EBig>::trim(&pp, d).unwrap()
}
/// (powers of the trapdoor, as seen by the reference)
fn eval_at(p: &P, x: FBig) -> FBig {
    p.coeffs.iter().rev().fold(FBig::zero(), |a, c| a * x + c)
}
/// reference value of a commitment: p(t) g + r(t) gamma_g, and t^(D-d) p(t) g + r'(t) gamma_g
fn ref_comm(vk: &VerifierKey<EBig>, p: &LP, r: &Randomness<FBig>) -> (FBig, Option<FBig>) {
    let t = vk.beta_h.0 * vk.h.0.inverse().unwrap();
    let m = eval_at(p.polynomial(), t) * vk.g.0 + eval_at(&r.rand.blinding_polynomial, t) * vk.gamma_g.0;
    let s = p.degree_bound().map(|b| {
        t.pow([(vk.supported_degree - b) as u64]) * eval_at(p.polynomial(), t) * vk.g.0
            + eval_at(&r.shifted_rand.as_ref().unwrap().blinding_polynomial, t) * vk.gamma_g.0
    });
    (m, s)
}
fn verdict(vk: &VerifierKey<EBig>, c: &[LC], z: FBig, v: &[FBig], pr: &Open<EBig>, ch: FBig) -> bool {
    matches!(guard(|| PC::<EBig>::check(vk, c, z, v.to_vec(), pr, ch)), Ok(Ok(true)))
}

pub fn m03(ctx: &Ctx) {
    ctx.assume(TOY);
    exact(ctx);
    single(ctx);
    multi(ctx);
    degree(ctx);
}

/// The opening check equals the pairing equation, on every point of the F17 proof space.
fn exact(ctx: &Ctx) {
    let pp = PC::<E17>::setup(3, &mut Coins::seeded(ctx.seed)).unwrap();
    let (_, vk) = PC::<E17>::trim(&pp, 3).unwrap();
    let all: Vec<u64> = (0..17).collect();
    par_for(&all, |_, c| {
        let mut n = 0;
        for z in [0u64, 1, 2, 16] {
            for v in 0..17u64 {
                for w in 0..17u64 {
                    for r in 0..18u64 {
                        let q = |x: u64| F17::from(x);
                        let rv = if r == 17 { None } else { Some(q(r)) };
                        let lhs = (q(*c) - q(v) * vk.g.0 - rv.unwrap_or(q(0)) * vk.gamma_g.0) * vk.h.0;
                        let rhs = q(w) * (vk.beta_h.0 - q(z) * vk.h.0);
                        let cm = zkp_marlin::pc::Commitment::<E17> { comm: zkp_marlin::pc::Comm(A::of(q(*c))), shifted_comm: None };
                        let lc = vec![zkp_marlin::pc::LabeledCommitment::new("p".into(), cm, None)];
                        let pr = Open::<E17> { w: A::of(q(w)), rand_v: rv };
                        let got = matches!(guard(|| PC::<E17>::check(&vk, &lc, q(z), vec![q(v)], &pr, q(5))), Ok(Ok(true)));
                        n += 1;
                        ctx.check(got == (lhs == rhs), "check-differs-from-equation", || format!("c={} z={} v={} w={} r={:?}: equation {} check {}", c, z, v, w, rv, lhs == rhs, got));
                    }
                }
            }
        }
        ctx.step(n);
        ctx.trace(n);
        for i in 0..n {
            ctx.state(&(*c, i));
        }
    });
    ctx.bound("F17: every commitment x value x witness x blinding value at 4 points against the pairing equation");
}

fn single(ctx: &Ctx) {
    let vals: &[i64] = if ctx.thorough() { &[0, 1, -1, 2] } else { &[0, 1, -2] };
    let mut jobs = vec![];
    for d in 1..=ctx.b(3usize, 4) {
        for len in 0..=d + 1 {
            for c in tuples(vals, len) {
                if len > 0 && c[len - 1] == 0 {
                    continue;
                }
                for bound in std::iter::once(None).chain((len.saturating_sub(1)..=d).map(Some)) {
                    for hide in [None, Some(1usize), Some(2)] {
                        if hide.map_or(false, |h| h > d || bound.map_or(false, |b| h > b)) {
                            continue;
                        }
                        jobs.push((d, c.clone(), bound, hide));
                    }
                }
            }
        }
    }
    ctx.bound(format!("{} (polynomial, degree bound, hiding bound) triples: all coefficient vectors over {:?} up to degree {}", jobs.len(), vals, ctx.b(3, 4)));
    par_for(&jobs, |_, (d, c, bound, hide)| {
        let (ck, vk) = keys(d + 2, *d, 3);
        let p = LP::new_owned("p".into(), poly(c), *bound, *hide);
        let show = || format!("supported degree {} p={:?} degree bound {:?} hiding {:?}", d, c, bound, hide);
        let (cm, rd) = match flat(guard(|| PC::<EBig>::commit(&ck, std::iter::once(&p), Some(&mut Coins::seeded(7))))) {
            Ok(x) => x,
            Err(e) => {
                ctx.violate("commit-fails", || format!("{}: {}", show(), e));
                return;
            }
        };
        ctx.state(&(d, c, bound, hide));
        let (m, s) = ref_comm(&vk, &p, &rd[0]);
        ctx.check(
            cm[0].commitment().comm.0 .0 == m && cm[0].commitment().shifted_comm.as_ref().map(|x| x.0 .0) == s,
            "commitment-differs-from-reference",
            show,
        );
        // hiding: the commitment moves with the coins, and the blinding polynomial has enough
        // freedom for `hide` openings
        let (cm2, rd2) = PC::<EBig>::commit(&ck, std::iter::once(&p), Some(&mut Coins::seeded(8))).unwrap();
        let moved = cm2[0].commitment().comm.0 != cm[0].commitment().comm.0;
        ctx.check(moved == hide.is_some(), "hiding-bound-ignored", || format!("{}: commitment depends on coins: {}", show(), moved));
        if let (Some(a), Some(b)) = (&cm[0].commitment().shifted_comm, &cm2[0].commitment().shifted_comm) {
            ctx.check((a.0 != b.0) == hide.is_some(), "hiding-bound-ignored", || format!("{}: shifted commitment", show()));
        }
        if let Some(h) = hide {
            ctx.check(rd[0].rand.blinding_polynomial.degree() >= *h, "blinding-degree-too-small", show);
            if let Some(sr) = &rd[0].shifted_rand {
                ctx.check(sr.blinding_polynomial.degree() >= *h, "blinding-degree-too-small", show);
                ctx.check(sr.blinding_polynomial != rd[0].rand.blinding_polynomial, "blinding-reused", show);
            }
            ctx.check(rd2[0].rand.blinding_polynomial != rd[0].rand.blinding_polynomial, "blinding-reused", show);
        }
        let zs = [f(0), f(1), f(-1), f(5)];
        for (i, z) in zs.iter().enumerate() {
            for ch in [f(11), f(9)] {
                let v = eval_at(p.polynomial(), *z);
                let pr = match flat(guard(|| PC::<EBig>::open(&ck, std::iter::once(&p), *z, ch, &rd))) {
                    Ok(x) => x,
                    Err(e) => {
                        ctx.violate("open-fails", || format!("{} at {}: {}", show(), fs(z), e));
                        continue;
                    }
                };
                ctx.step(1);
                ctx.trace(1);
                ctx.check(verdict(&vk, &cm, *z, &[v], &pr, ch), "honest-opening-rejected", || format!("{} at {}", show(), fs(z)));
                // every other claimed value
                for dv in [1i64, -1, 7] {
                    ctx.step(1);
                    let bad = v + f(dv);
                    ctx.check(!verdict(&vk, &cm, *z, &[bad], &pr, ch), "wrong-value-accepted", || format!("{} at {}: value {}", show(), fs(z), fs(&bad)));
                }
                // same value at another point: may only pass when it is the value there, too
                let z2 = zs[(i + 1) % zs.len()];
                if eval_at(p.polynomial(), z2) != v {
                    ctx.check(!verdict(&vk, &cm, z2, &[v], &pr, ch), "wrong-point-accepted", || format!("{} at {} checked at {}", show(), fs(z), fs(&z2)));
                }
                // altered opening
                for dw in [1i64, -1] {
                    let mut q = pr.clone();
                    q.w = A::of(q.w.0 + f(dw));
                    ctx.check(!verdict(&vk, &cm, *z, &[v], &q, ch), "altered-opening-accepted", show);
                    let mut q = pr.clone();
                    q.rand_v = Some(q.rand_v.unwrap_or(f(0)) + f(dw));
                    ctx.check(!verdict(&vk, &cm, *z, &[v], &q, ch), "altered-opening-accepted", show);
                }
                // altered commitment, commitment of another polynomial
                let mut c2 = cm[0].commitment().clone();
                c2.comm.0 = A::of(c2.comm.0 .0 + f(1));
                let lc = vec![LC::new("p".into(), c2, *bound)];
                ctx.check(!verdict(&vk, &lc, *z, &[v], &pr, ch), "altered-commitment-accepted", show);
                if bound.is_some() {
                    let mut c2 = cm[0].commitment().clone();
                    c2.shifted_comm.as_mut().unwrap().0 = A::of(c2.shifted_comm.as_ref().unwrap().0 .0 + f(1));
                    let lc = vec![LC::new("p".into(), c2, *bound)];
                    ctx.check(!verdict(&vk, &lc, *z, &[v], &pr, ch), "altered-commitment-accepted", show);
                    // claimed under every other degree bound
                    for other in 0..=*d {
                        if Some(other) != *bound && !v.is_zero() && !(*z == f(0)) && z.pow([(*d - other) as u64]) != z.pow([(*d - bound.unwrap()) as u64]) {
                            let lc = vec![LC::new("p".into(), cm[0].commitment().clone(), Some(other))];
                            ctx.check(!verdict(&vk, &lc, *z, &[v], &pr, ch), "wrong-degree-bound-accepted", || format!("{}: claimed {}", show(), other));
                        }
                    }
                    let lc = vec![LC::new("p".into(), cm[0].commitment().clone(), None)];
                    if !p.polynomial().is_zero() {
                        ctx.check(!verdict(&vk, &lc, *z, &[v], &pr, ch), "degree-bound-dropped", show);
                    }
                    let mut c2 = cm[0].commitment().clone();
                    c2.shifted_comm = None;
                    let lc = vec![LC::new("p".into(), c2, *bound)];
                    ctx.check(!verdict(&vk, &lc, *z, &[v], &pr, ch), "degree-bound-dropped", show);
                }
            }
        }
        ctx.sample("single", show);
    });
}

/// Several polynomials, several points, batch openings.
fn multi(ctx: &Ctx) {
    let d = 4;
    let (ck, vk) = keys(6, d, 5);
    let pool: Vec<(Vec<i64>, Option<usize>, Option<usize>)> = vec![
        (vec![], None, None),
        (vec![3], None, None),
        (vec![3], Some(0), None),
        (vec![0, 0, 1], Some(2), Some(1)),
        (vec![1, 2, -1], None, Some(1)),
        (vec![0, 1, 0, 0, 2], Some(4), Some(2)),
        (vec![1, 1], Some(3), None),
        (vec![0, 5, 0, 1], Some(3), Some(1)),
    ];
    let mut sets: Vec<Vec<usize>> = vec![];
    for a in 0..pool.len() {
        for b in 0..pool.len() {
            sets.push(vec![a, b]);
            if ctx.thorough() || (a + b) % 2 == 0 {
                for c in 0..pool.len() {
                    sets.push(vec![a, b, c]);
                }
            }
        }
    }
    ctx.bound(format!("{} lists of 2-3 polynomials from an 8-polynomial pool; all non-empty query sets over 2 points per polynomial; each value, commitment, opening altered alone, values altered in pairs", sets.len()));
    par_for(&sets, |_, set| {
        let ps: Vec<LP> = set.iter().enumerate().map(|(i, k)| LP::new_owned(format!("p{}", i), poly(&pool[*k].0), pool[*k].1, pool[*k].2)).collect();
        let (cm, rd) = match flat(guard(|| PC::<EBig>::commit(&ck, ps.iter(), Some(&mut Coins::seeded(7))))) {
            Ok(x) => x,
            Err(e) => {
                ctx.violate("commit-fails", || format!("{:?}: {}", set, e));
                return;
            }
        };
        let ch = f(7);
        // each polynomial queried at z1, z2 or both
        let z = [f(5), f(-3)];
        for q in tuples(&[1u8, 2, 3], set.len()) {
            let mut qs = QuerySet::new();
            let mut ev = Evaluations::new();
            for (i, m) in q.iter().enumerate() {
                for j in 0..2 {
                    if m >> j & 1 == 1 {
                        qs.insert((format!("p{}", i), z[j]));
                        ev.insert((format!("p{}", i), z[j]), eval_at(ps[i].polynomial(), z[j]));
                    }
                }
            }
            ctx.state(&(set, &q));
            let prs = match flat(guard(|| PC::<EBig>::batch_open(&ck, ps.iter(), &qs, ch, &rd))) {
                Ok(x) => x,
                Err(e) => {
                    ctx.violate("open-fails", || format!("{:?} {:?}: {}", set, q, e));
                    continue;
                }
            };
            let chk = |cm: &[LC], ev: &Evaluations<FBig>, prs: &Vec<Open<EBig>>| {
                ctx.step(1);
                ctx.trace(1);
                matches!(guard(|| PC::<EBig>::batch_check(&vk, cm, &qs, ev, prs, ch)), Ok(Ok(true)))
            };
            ctx.check(chk(&cm, &ev, &prs), "honest-opening-rejected", || format!("batch {:?} {:?}", set, q));
            let keys: Vec<_> = ev.keys().cloned().collect();
            for (x, k) in keys.iter().enumerate() {
                let mut e = ev.clone();
                *e.get_mut(k).unwrap() += f(1);
                ctx.check(!chk(&cm, &e, &prs), "wrong-value-accepted", || format!("batch {:?} {:?} at {:?}", set, q, k.0));
                for k2 in &keys[x + 1..] {
                    for (a, b) in [(1, -1), (1, 1), (-1, 1)] {
                        let mut e = ev.clone();
                        *e.get_mut(k).unwrap() += f(a);
                        *e.get_mut(k2).unwrap() += f(b);
                        ctx.check(!chk(&cm, &e, &prs), "wrong-value-accepted", || format!("batch {:?} {:?} at {:?} and {:?}", set, q, k.0, k2.0));
                    }
                }
                let mut e = ev.clone();
                e.remove(k);
                ctx.check(!chk(&cm, &e, &prs), "missing-value-accepted", || format!("batch {:?} {:?} at {:?}", set, q, k.0));
            }
            for i in 0..prs.len() {
                let mut b = prs.clone();
                b[i].w = A::of(b[i].w.0 + f(1));
                ctx.check(!chk(&cm, &ev, &b), "altered-opening-accepted", || format!("batch {:?} {:?} opening {}", set, q, i));
                let mut b = prs.clone();
                b.remove(i);
                ctx.check(!chk(&cm, &ev, &b), "missing-opening-accepted", || format!("batch {:?} {:?} opening {}", set, q, i));
                for j in 0..i {
                    if prs[i].w != prs[j].w || prs[i].rand_v != prs[j].rand_v {
                        let mut b = prs.clone();
                        b.swap(i, j);
                        ctx.check(!chk(&cm, &ev, &b), "exchanged-openings-accepted", || format!("batch {:?} {:?}", set, q));
                    }
                    // errors that cancel between two openings
                    let mut b = prs.clone();
                    b[i].w = A::of(b[i].w.0 + f(1));
                    b[j].w = A::of(b[j].w.0 - f(1));
                    ctx.check(!chk(&cm, &ev, &b), "altered-opening-accepted", || format!("batch {:?} {:?} openings {} and {}", set, q, i, j));
                }
            }
            for i in 0..cm.len() {
                let mut c2 = cm[i].commitment().clone();
                c2.comm.0 = A::of(c2.comm.0 .0 + f(1));
                let mut cc = cm.clone();
                cc[i] = LC::new(format!("p{}", i), c2, pool[set[i]].1);
                ctx.check(!chk(&cc, &ev, &prs), "altered-commitment-accepted", || format!("batch {:?} {:?} commitment {}", set, q, i));
                let mut cc = cm.clone();
                cc.remove(i);
                ctx.check(!chk(&cc, &ev, &prs), "missing-commitment-accepted", || format!("batch {:?} {:?} commitment {}", set, q, i));
            }
        }
    });
}

/// Out-of-range degrees, bounds and key sizes are refused.
fn degree(ctx: &Ctx) {
    for d in 1..=5usize {
        let (ck, vk) = keys(d + 1, d, 11);
        for deg in 0..=d + 2 {
            for bound in std::iter::once(None).chain((0..=d + 2).map(Some)) {
                let mut c = vec![0i64; deg];
                c.push(1);
                let p = LP::new_owned("p".into(), poly(&c), bound, None);
                ctx.step(1);
                ctx.trace(1);
                ctx.state(&("degree", d, deg, bound));
                let ok = deg <= d && bound.map_or(true, |b| b <= d && deg <= b);
                match guard(|| PC::<EBig>::commit(&ck, std::iter::once(&p), None)) {
                    Ok(Ok(_)) => {
                        ctx.check(ok, "oversized-polynomial-committed", || format!("supported {} degree {} bound {:?}", d, deg, bound));
                    }
                    Ok(Err(_)) => { ctx.check(!ok, "commit-fails", || format!("supported {} degree {} bound {:?}", d, deg, bound)); }
                    Err(e) => { ctx.check(false, "commit-panics", || format!("supported {} degree {} bound {:?}: {}", d, deg, bound, e)); }
                }
            }
        }
        // a prover who wants a polynomial of degree `deg` to pass for degree `bound` < deg, having
        // only the published powers: shifted commitment built from each available power
        let t = vk.beta_h.0 * vk.h.0.inverse().unwrap();
        for deg in 1..=d {
            for bound in 0..deg {
                for k in 0..=d {
                    let mut c = vec![0i64; deg];
                    c.push(1);
                    let p = poly(&c);
                    let ch = f(3);
                    let z = f(4);
                    let v = eval_at(&p, z);
                    let main = ck.powers_of_g[deg];
                    let sh = ck.powers_of_g[k];
                    let cm = vec![LC::new("p".into(), zkp_marlin::pc::Commitment { comm: zkp_marlin::pc::Comm(main), shifted_comm: Some(zkp_marlin::pc::Comm(sh)) }, Some(bound))];
                    // best opening computable from the powers: the quotient of p + ch*q by (X - z),
                    // q = X^k, whose value at z is not z^(d-bound) v unless k = d - bound + deg > d
                    let mut q = p.clone();
                    let mut kk = vec![0i64; k];
                    kk.push(3);
                    q = &q + &poly(&kk);
                    let quo = &q / &P::from_coefficients_vec(vec![-z, f(1)]);
                    let w: FBig = quo.coeffs.iter().enumerate().map(|(i, c)| *c * ck.powers_of_g[i].0).sum();
                    let _ = t;
                    ctx.step(1);
                    ctx.trace(1);
                    ctx.check(!verdict(&vk, &cm, z, &[v], &Open { w: A::of(w), rand_v: None }, ch), "degree-bound-evaded", || format!("supported {} degree {} claimed {} shifted by power {}", d, deg, bound, k));
                }
            }
        }
        for s in d + 2..d + 4 {
            let pp = PC::<EBig>::setup(d + 1, &mut Coins::seeded(1)).unwrap();
            ctx.check(matches!(guard(|| PC::<EBig>::trim(&pp, s)), Ok(Err(_))), "trim-beyond-maximum", || format!("max {} supported {}", d + 1, s));
        }
    }
    ctx.bound("degrees 0..=D+2 x degree bounds 0..=D+2 for D <= 5; every single-power evasion of every smaller degree bound");
}
