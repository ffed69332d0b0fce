//! K01: with the verifier's challenges fixed, the messages of the prover are a polynomial function
//! of its witness and its coins. Hiding means that whatever the witness can do to the messages the
//! coins can do as well: every derivative of the messages along a family of witnesses of the same
//! statement lies in the span of their derivatives along the private coins.
use ark_ff::{Field, Zero};
use mc_bulletproofs as bp;
use mc_groth16 as gr;
use mc_hyrax as hy;
use mc_libra as li;
use mc_marlin as ma;
use mc_plonk as pl;
use mc_spartan as sp;
use mccore::rng::forced;
use mccore::toy::*;
use mccore::*;
use mcfs::fixed;
use merlin::mc::scripted;
use std::collections::BTreeMap;

type F = FBig;
type Words = BTreeMap<Vec<usize>, F>;
/// witness -> (what is public besides the challenges, encoded proof), under `forced` coins
type Run<'a> = dyn Fn(&[F]) -> Result<(Vec<u8>, Vec<u8>), String> + 'a;
struct Probe<'a> {
    ctx: &'a Ctx,
    name: String,
    show: String,
    sch: Sch,
    run: &'a Run<'a>,
    accepts: &'a dyn Fn(&[u8]) -> bool,
}
fn base(n: usize, salt: u64) -> u64 {
    let mut z = (n as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15) ^ salt.wrapping_mul(0xD1342543DE82EF95);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    // below the modulus: no draw is repeated
    (z ^ (z >> 31)) >> 5
}
/// weights of the derivative at 0 over the nodes -k..=k without 0
fn weights(k: i64) -> Vec<(i64, F)> {
    (-k..=k)
        .filter(|j| *j != 0)
        .map(|j| {
            let mut w = fi::<F>(j).inverse().unwrap();
            for m in (-k..=k).filter(|m| *m != j && *m != 0) {
                w *= fi::<F>(-m) * fi::<F>(j - m).inverse().unwrap();
            }
            (j, w)
        })
        .collect()
}
impl<'a> Probe<'a> {
    fn eval(&self, w: &[F], coins: &[u64], seed: u64) -> Result<(Words, Vec<u8>, Vec<u8>, usize), String> {
        self.ctx.step(1);
        let (r, n) = forced(coins.to_vec(), || scripted(fixed(seed, None), || (self.run)(w)));
        let (p, b) = r?;
        let mut t = self.sch.decode(&b).ok_or("unparsable")?;
        let m = t.words().into_iter().map(|q| if let Tree::Word(x) = t.at(&q) { (q.clone(), F::from(*x)) } else { unreachable!() }).collect();
        Ok((m, p, b, n))
    }
    fn add(acc: &mut Words, w: F, m: &Words) {
        for (k, x) in m {
            *acc.entry(k.clone()).or_insert_with(F::zero) += w * x;
        }
    }
    /// `dirs`: families of witnesses (t -> witness) of one statement, equal at t = 0
    fn hides(&self, dirs: &[(String, &dyn Fn(F) -> Vec<F>)], seed: u64) {
        let ctx = self.ctx;
        let w0 = dirs[0].1(F::zero());
        let long: Vec<u64> = (0..4000).map(|i| base(i, seed)).collect();
        let (m0, p0, b0, n) = match self.eval(&w0, &long, seed) {
            Ok(x) => x,
            Err(_) => return ctx.count("no proof", 1),
        };
        assert!(n < long.len());
        if !scripted(fixed(seed, None), || (self.accepts)(&b0)) {
            return ctx.count("not accepted", 1);
        }
        ctx.trace(1);
        ctx.state(&(&self.name, &b0));
        let coins = &long[..n];
        let mut basis: Vec<(Vec<usize>, Words)> = vec![];
        let (mut private, mut dead) = (0, 0);
        for i in 0..n {
            let mut d = Words::new();
            let mut public = false;
            for (j, w) in weights(2) {
                let mut c = coins.to_vec();
                c[i] = (c[i] as i64 + j) as u64;
                match self.eval(&w0, &c, seed) {
                    Ok((m, p, _, k)) if k == n => {
                        public |= p != p0;
                        Self::add(&mut d, w, &m);
                    }
                    // a coin that decides how much is drawn is no hiding coin of this kind
                    _ => public = true,
                }
            }
            if public {
                ctx.count("coins that fix public values", 1);
                continue;
            }
            private += 1;
            d.retain(|_, x| !x.is_zero());
            if d.is_empty() {
                dead += 1;
            }
            reduce(&basis, &mut d);
            if let Some((k, x)) = d.iter().next().map(|(k, x)| (k.clone(), *x)) {
                let inv = x.inverse().unwrap();
                d.values_mut().for_each(|y| *y *= inv);
                basis.push((k, d));
            }
        }
        ctx.count(&format!("{}: private coins", self.name.split(' ').next().unwrap()), private);
        ctx.count(&format!("{}: coins without effect", self.name.split(' ').next().unwrap()), dead);
        ctx.count(&format!("{}: dimensions covered", self.name.split(' ').next().unwrap()), basis.len() as u64);
        for (dn, f) in dirs {
            let mut d = Words::new();
            let mut ok = true;
            for (j, w) in weights(7) {
                match self.eval(&f(fi(j)), coins, seed) {
                    Ok((m, p, _, k)) if p == p0 && k == n => Self::add(&mut d, w, &m),
                    _ => ok = false,
                }
            }
            if !ok {
                ctx.count("witness changes what is public", 1);
                continue;
            }
            d.retain(|_, x| !x.is_zero());
            let moved = d.len();
            reduce(&basis, &mut d);
            ctx.trace(1);
            ctx.count(if moved > 0 { "witness directions that move the proof" } else { "witness directions without effect" }, 1);
            if !d.is_empty() {
                let class: std::collections::BTreeSet<String> = d.keys().map(|k| mcfs::At::Proof(k.clone()).class(&self.sch)).collect();
                ctx.violate(&format!("{}: leaks its witness", self.name), || {
                    format!("{}: direction {} moves {} words, coins cannot follow in {} (rank {} of {} words): {:?}", self.show, dn, moved, d.len(), basis.len(), m0.len(), class)
                });
            }
        }
    }
    /// every draw replaced by every extreme value: the verdict stays
    fn extremes(&self, w: &[F]) {
        let ctx = self.ctx;
        let long: Vec<u64> = (0..4000).map(|i| base(i, 77)).collect();
        let (r, n) = forced(long.clone(), || (self.run)(w));
        let p0 = match r {
            Ok((p, b)) if (self.accepts)(&b) => p,
            _ => return,
        };
        let mut plans: Vec<(String, Vec<u64>)> = vec![];
        for v in [0, 1, minus_one(), u64::MAX] {
            for i in 0..n {
                let mut c = long[..n + 8].to_vec();
                c[i] = v;
                plans.push((format!("draw {} = {:#x}", i, v), c));
            }
            if v < u64::MAX {
                plans.push((format!("every draw = {:#x}", v), vec![v; n + 8]));
            }
        }
        for i in 0..n.min(ctx.b(8, 40)) {
            for j in 0..i {
                for (v, w) in [(0, 0), (0, 1)] {
                    let mut c = long[..n + 8].to_vec();
                    c[i] = v;
                    c[j] = w;
                    plans.push((format!("draws {},{} = {},{}", i, j, v, w), c));
                }
            }
        }
        for (what, c) in plans {
            ctx.step(1);
            let (r, _) = forced(c, || (self.run)(w));
            match r {
                Ok((p, _)) if p != p0 => ctx.count("coins that fix public values", 1),
                Ok((_, b)) => {
                    ctx.count("extreme coins", 1);
                    ctx.check((self.accepts)(&b), &format!("{}: verdict depends on the coins", self.name), || format!("{}: {}", self.show, what));
                }
                Err(e) => {
                    ctx.violate(&format!("{}: prover depends on the coins", self.name), || format!("{}: {}: {}", self.show, what, e));
                }
            }
        }
    }
}
/// the representation whose draw gives -1 is not 64-bit -1: any word below the modulus serves
fn minus_one() -> u64 {
    use ark_ff::{FpParameters, PrimeField};
    <F as PrimeField>::Params::MODULUS.0[0] - 1
}
fn reduce(basis: &[(Vec<usize>, Words)], d: &mut Words) {
    for (k, b) in basis {
        if let Some(x) = d.get(k).cloned() {
            for (q, y) in b {
                *d.entry(q.clone()).or_insert_with(F::zero) -= x * y;
            }
            d.retain(|_, x| !x.is_zero());
        }
    }
}
/// a relation with families of witnesses
struct Fam {
    case: Case<F>,
    dirs: Vec<(String, Vec<F>)>,
    /// how later witnesses follow from the first ones
    steps: Vec<[L; 2]>,
    free: usize,
}
impl Fam {
    fn at(&self, d: usize, t: F) -> Vec<F> {
        let mut a: Vec<F> = (0..self.free).map(|i| F::from(2 + 3 * i as u64) + t * self.dirs[d].1[i]).collect();
        for [x, y] in &self.steps {
            let z = Rel::z(&self.case.public, &a);
            a.push(Rel::lc_val(x, &z) * Rel::lc_val(y, &z));
        }
        a
    }
}
/// programs of up to `depth` multiplications over the free witnesses; with `bound`, the sum of
/// the free witnesses is public
fn families(free: usize, depth: usize, bound: bool, full: bool) -> Vec<Fam> {
    let np = if bound { 2 } else { 1 };
    let w = |i: usize| 1 + np + i;
    let mut progs: Vec<Vec<[L; 2]>> = vec![vec![]];
    let mut out: Vec<Vec<[L; 2]>> = progs.clone();
    for d in 0..depth {
        let mut next = vec![];
        for p in &progs {
            let last = w(free + d - if d > 0 { 1 } else { 0 });
            let mut ls: Vec<L> = vec![vec![(w(0), 1)], vec![(1, 1)]];
            if free > 1 {
                ls.push(vec![(w(0), 1), (w(1), 2), (0, 1)]);
            }
            if d > 0 {
                ls.push(vec![(last, 1)]);
            }
            if full {
                ls.push(vec![(0, 1)]);
                ls.push(vec![(w(free - 1), -1), (1, 1)]);
            }
            for a in &ls {
                for b in &ls {
                    let mut q = p.clone();
                    q.push([a.clone(), b.clone()]);
                    next.push(q);
                }
            }
        }
        out.extend(next.iter().cloned());
        progs = next;
    }
    out.into_iter()
        .map(|steps| {
            let mut dirs = vec![];
            for v in product(&vec![3usize; free]) {
                let d: Vec<F> = v.iter().map(|x| fi(*x as i64 - 1)).collect();
                if d.iter().any(|x| !x.is_zero()) && v.iter().find(|x| **x != 1) == Some(&2) && (!bound || d.iter().sum::<F>().is_zero()) {
                    dirs.push((format!("{:?}", v.iter().map(|x| *x as i64 - 1).collect::<Vec<_>>()), d));
                }
            }
            let mut public = vec![F::from(3u64)];
            let mut cons: Vec<[L; 3]> = vec![];
            if bound {
                public.push((0..free).map(|i| F::from(2 + 3 * i as u64)).sum());
                cons.push([(0..free).map(|i| (w(i), 1)).collect(), vec![(0, 1)], vec![(2, 1)]]);
            }
            for (i, [a, b]) in steps.iter().enumerate() {
                cons.push([a.clone(), b.clone(), vec![(w(free + i), 1)]]);
            }
            let rel = Rel { n_pub: np, n_aux: free + steps.len(), cons };
            let mut f = Fam { case: Case { rel, public, aux: vec![], order: 0, name: "family".into() }, dirs, steps, free };
            f.case.aux = f.at(0, F::zero());
            f
        })
        .filter(|f| !f.dirs.is_empty() && !f.case.rel.cons.is_empty())
        .collect()
}
fn r1cs<S: Scheme<F>>(ctx: &Ctx, name: &str, s: &S, sch: &str, fams: &[&Fam], public: &(dyn Fn(&S::Proof) -> Vec<u8> + Sync))
where
    S: Sync,
    S::Key: Sync,
{
    par_for(fams, |n, f| {
        let c = &f.case;
        let k = match s.setup(c, 1) {
            Ok(k) => k,
            Err(_) => return ctx.count("no parameters", 1),
        };
        let like = match s.prove(&k, c, &c.public, &c.aux, 1) {
            Ok(k) => k,
            Err(_) => return ctx.count("no proof", 1),
        };
        let env = std::cell::RefCell::new(like);
        let p = Probe {
            ctx,
            name: name.to_string(),
            show: c.show(),
            sch: Sch::parse(sch),
            run: &|w| {
                let pr = s.prove(&k, c, &c.public, w, 1)?;
                let r = (public(&pr), s.bytes(&pr));
                *env.borrow_mut() = pr;
                Ok(r)
            },
            accepts: &|b| match s.parse(&env.borrow(), b) {
                Some(pr) => s.verify(&k, &pr, &c.public).acc(),
                None => false,
            },
        };
        let fs: Vec<Box<dyn Fn(F) -> Vec<F> + '_>> = (0..f.dirs.len()).map(|d| Box::new(move |t| f.at(d, t)) as Box<dyn Fn(F) -> Vec<F>>).collect();
        let dirs: Vec<(String, &dyn Fn(F) -> Vec<F>)> = f.dirs.iter().zip(&fs).map(|(d, f)| (d.0.clone(), &**f)).collect();
        for seed in 0..ctx.b(1, 3) {
            p.hides(&dirs, seed);
        }
        if n % ctx.b(4, 1) == 0 {
            p.extremes(&c.aux);
        }
    });
}
/// directions of the witness that leave every output of a layered circuit in place
fn kernel(c: &LCase<F>) -> Vec<(usize, Vec<F>)> {
    let mut out = vec![];
    for k in 0..c.aux.len() {
        let n = c.aux[k].len();
        for v in product(&vec![3usize; n]) {
            let d: Vec<F> = v.iter().map(|x| fi(*x as i64 - 1)).collect();
            if v.iter().find(|x| **x != 1) != Some(&2) {
                continue;
            }
            let at = |t: i64| {
                let a: Vec<F> = c.aux[k].iter().zip(&d).map(|(x, y)| *x + fi::<F>(t) * y).collect();
                c.c.eval(&a, &c.inputs[k])
            };
            let o = at(0);
            if (1..20).all(|t| at(t) == o) {
                out.push((k, d));
            }
        }
    }
    out
}
fn layered<S: LScheme<F> + Sync>(ctx: &Ctx, name: &str, s: &S, cases: &[LCase<F>]) {
    par_for(cases, |n, c| {
        let ks = kernel(c);
        if ks.is_empty() {
            return;
        }
        let shape: Vec<usize> = c.aux.iter().map(|a| a.len()).collect();
        let flat0: Vec<F> = c.aux.concat();
        let split = |w: &[F]| {
            let mut d = c.clone();
            let mut at = 0;
            for (k, l) in shape.iter().enumerate() {
                d.aux[k] = w[at..at + l].to_vec();
                at += l;
            }
            d
        };
        let st = match s.prove(c, &c.c, 1) {
            Ok((_, st)) => st,
            Err(_) => return ctx.count("no proof", 1),
        };
        let p = Probe {
            ctx,
            name: name.to_string(),
            show: c.show(),
            sch: Sch::parse(s.schema()),
            run: &|w| s.prove(&split(w), &c.c, 1).map(|(b, st)| (format!("{:?} {:?}", st.outputs, st.inputs).into_bytes(), b)),
            accepts: &|b| s.verify(&c.c, b, &st).acc(),
        };
        let fs: Vec<(String, Box<dyn Fn(F) -> Vec<F>>)> = ks
            .iter()
            .map(|(k, d)| {
                let off: usize = shape[..*k].iter().sum();
                let (z, d) = (flat0.clone(), d.clone());
                (format!("copy {} {}", k, vs(&d)), Box::new(move |t: F| {
                    let mut z = z.clone();
                    d.iter().enumerate().for_each(|(i, x)| z[off + i] += t * x);
                    z
                }) as Box<dyn Fn(F) -> Vec<F>>)
            })
            .collect();
        let dirs: Vec<(String, &dyn Fn(F) -> Vec<F>)> = fs.iter().map(|(n, f)| (n.clone(), &**f)).collect();
        for seed in 0..ctx.b(1, 3) {
            p.hides(&dirs, seed);
        }
        if n % ctx.b(4, 1) == 0 {
            p.extremes(&flat0);
        }
    });
}
pub fn k01(ctx: &Ctx) {
    ctx.assume("toy groups show discrete logarithms: commitments are the field values they commit to under known independent generators, so hiding is decided for an unbounded observer; hiding to first order around every explored witness and coins");
    let mut fams = vec![];
    for (free, depth, bound) in [(1, ctx.b(2, 2), false), (2, ctx.b(1, 2), false), (2, ctx.b(1, 2), true)] {
        fams.extend(families(free, depth, bound, ctx.thorough() || depth == 1));
    }
    ctx.bound(format!("{} families of satisfied relations: programs of up to {} multiplications over 1 or 2 free witnesses, with and without a public sum; every prover draw moved alone; every draw set to 0, 1, the largest and an oversized word", fams.len(), 2));
    let all: Vec<&Fam> = fams.iter().collect();
    r1cs(ctx, "groth16", &gr::Groth::<EBig>::new(), "www", &all, &|_| vec![]);
    r1cs(ctx, "bulletproofs", &bp::Bp, bp::Bp.schema().unwrap(), &all, &|p: &bp::Pf| {
        let mut v = bp::ser(&p.env.0);
        v.extend(bp::ser(&p.env.1));
        v
    });
    let m = ma::Marlin::<EBig>::new();
    r1cs(ctx, "marlin", &m, m.schema().unwrap(), &all, &|_| vec![]);
    r1cs(ctx, "spartan-nizk", &sp::Nizk, sp::Nizk.schema().unwrap(), &all, &|_| vec![]);
    let some: Vec<&Fam> = all.iter().step_by(ctx.b(7, 2)).cloned().collect();
    r1cs(ctx, "spartan-snark", &sp::Snark, sp::Snark.schema().unwrap(), &some, &|_| vec![]);
    r1cs(ctx, "plonk", &pl::Compiled, pl::Compiled.schema().unwrap(), &some, &|_| vec![]);
    let ls: Vec<Lc> = patterned(&[(1, 1), (2, 1), (2, 3), (3, 2)], &[1, 3, 4], 2, 2);
    let cs: Vec<LCase<F>> = ls.iter().flat_map(|c| [values(c, 1, 0), values(c, 2, 1)]).filter(|c| !kernel(c).is_empty()).collect();
    let (one, many): (Vec<_>, Vec<_>) = cs.into_iter().partition(|c| c.aux.len() == 1);
    let cut = |v: Vec<LCase<F>>, n: usize| -> Vec<LCase<F>> { let k = (v.len() / n).max(1); v.into_iter().step_by(k).collect() };
    let (one, many) = (cut(one, ctx.b(24, 200)), cut(many, ctx.b(24, 200)));
    ctx.bound(format!("{} layered circuits with witnesses that the outputs do not determine, {} of them with two copies", one.len() + many.len(), many.len()));
    layered(ctx, "libra-zk", &li::Zk::new(), &one);
    let h = hy::Hyrax::new();
    layered(ctx, "hyrax", &h, &one);
    layered(ctx, "hyrax", &h, &many);
}
