//! Fiat-Shamir: which challenges every word of statement and proof reaches.
use mc_bulletproofs as bp;
use mc_hyrax as hy;
use mc_libra as li;
use mc_marlin as ma;
use mc_plonk as pl;
use mc_spartan as sp;
use mccore::toy::*;
use mccore::*;
use mcfs::{challenges, first_affected, At, Opened, Subject};
use merlin::mc::logged;
use std::collections::BTreeMap;

type F = FBig;
/// (stable key, subject)
pub fn subjects(level: usize) -> Vec<(String, Subject<F>)> {
    let mut v = bp::fs_subjects(level);
    v.extend(ma::fs_subjects(level));
    v.extend(sp::fs_subjects(level, true));
    v.extend(sp::fs_subjects(level, false));
    v.extend(li::fs_subjects(level));
    v.extend(hy::fs_subjects(level));
    v.extend(pl::fs_subjects(level));
    v
}
type Row = BTreeMap<String, Result<usize, usize>>;
/// word -> first challenge it reaches; Err(n): none of the n challenges
fn row(s: &Subject<F>, spread: &mut dyn FnMut(&At, usize, usize)) -> Option<Row> {
    let b = (s.prove)(5).ok()?;
    let o = Opened::new(s, &b)?;
    let (v, honest) = logged(|| (s.verify)(&b, &s.publics));
    if !v.acc() {
        return None;
    }
    let hc = challenges(&honest);
    let mut m = Row::new();
    for w in &o.words {
        // in several ways, to reach past checks that stop early
        let mut best: Option<Result<usize, usize>> = None;
        for d in [1i64, -1, 7] {
            let (mb, mp) = o.with(&[(w, fi(d))]);
            let (_, l) = logged(|| (s.verify)(&mb, &mp));
            let t = first_affected(&honest, &l);
            if let Ok(t) = t {
                for (k, c) in challenges(&l).iter().enumerate().skip(t) {
                    if hc.get(k) == Some(c) {
                        spread(w, t, k);
                    }
                }
            }
            let better = match (&best, &t) {
                (None, _) => true,
                (Some(Err(_)), Ok(_)) => true,
                (Some(Ok(a)), Ok(b)) => b > a,
                (Some(Err(a)), Err(b)) => b > a,
                _ => false,
            };
            if better {
                best = Some(t);
            }
        }
        m.insert(w.show(), best.unwrap());
    }
    Some(m)
}
fn path() -> String {
    format!("{}/harness/cross/golden.txt", std::env::var("MC_VERIF").unwrap_or("/verif".into()))
}
fn code(t: &Result<usize, usize>) -> String {
    match t {
        Ok(t) => format!("{}", t),
        Err(n) => format!("-{}", n),
    }
}
/// write the table of the current tree (developer command; never run by a check)
pub fn golden(_: &Ctx) {
    let mut out = String::from("# word -> number of the first challenge it must reach (-n: it is sent after all n)\n");
    for (k, s) in subjects(2) {
        let r = row(&s, &mut |_, _, _| {}).unwrap_or_else(|| panic!("{}", k));
        out += &format!("@{}\n", k);
        let mut by: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for (w, t) in r {
            by.entry(code(&t)).or_default().push(w);
        }
        for (t, w) in by {
            out += &format!("{} {}\n", t, w.join(" "));
        }
    }
    std::fs::write(path(), out).unwrap();
    mcfs::write_decides(&subjects(2));
}
fn load() -> BTreeMap<String, Row> {
    let mut m: BTreeMap<String, Row> = BTreeMap::new();
    let mut cur = String::new();
    for l in std::fs::read_to_string(path()).expect("golden.txt").lines() {
        if l.starts_with('#') {
            continue;
        }
        if let Some(k) = l.strip_prefix('@') {
            cur = k.into();
            continue;
        }
        let mut it = l.split(' ');
        let t: i64 = it.next().unwrap().parse().unwrap();
        let neg = l.starts_with('-');
        for w in it {
            m.entry(cur.clone()).or_default().insert(w.into(), if neg { Err((-t) as usize) } else { Ok(t as usize) });
        }
    }
    m
}
pub fn f01(ctx: &Ctx) {
    ctx.assume("toy groups over a 61-bit field; merlin and ChaCha are the real ones with their inputs and outputs observed");
    ctx.assume("golden.txt states, per protocol, the challenge by which each message must have been absorbed; it was derived from the protocol descriptions and the interactive-adversary exploration (B02, M02, S02, S04, L02, H02, P02) of the same statements");
    let want = load();
    let ss = subjects(ctx.b(1, 2));
    let n = ss.len();
    par_for(&ss, |_, (k, s)| {
        let scheme = k.split(' ').next().unwrap();
        let mut same = vec![];
        let r = row(s, &mut |w, t, k| same.push((w.show(), t, k)));
        ctx.check(same.is_empty(), &format!("challenge-forgets-transcript {}", scheme), || format!("{}: {} is absorbed before challenge {} but challenge {} does not depend on it", s.name, same[0].0, same[0].1, same[0].2));
        let (r, g) = match (r, want.get(k)) {
            (Some(r), Some(g)) => (r, g),
            _ => {
                ctx.count("statement without a table", 1);
                return;
            }
        };
        ctx.step(3 * r.len() as u64);
        ctx.trace(3 * r.len() as u64);
        for (w, must) in g {
            ctx.state(&(k, w));
            let now = match r.get(w) {
                Some(t) => t,
                None => {
                    ctx.count("word not present", 1);
                    continue;
                }
            };
            let late = match (must, now) {
                (Ok(a), Ok(b)) => b > a,
                // the run ended without any later challenge: an early rejection is fine
                (Ok(a), Err(n)) => n > a,
                (Err(_), _) => false,
            };
            let class: String = w.chars().filter(|c| !c.is_ascii_digit()).collect();
            ctx.check(!late, &format!("late-or-unbound {} {}", scheme, class), || format!("{}: {} must be absorbed before challenge {}, first reaches {}", s.name, w, code(must), code(now)));
        }
        ctx.sample("table", || format!("{}: {} words", s.name, r.len()));
    });
    mcfs::all_decide(ctx, &ss);
    bind_relations(ctx);
    ctx.bound(format!("{} statements of 9 Fiat-Shamir arguments: every word of statement and proof altered in 3 ways, the first challenge reached compared with the protocol's table and every later challenge required to change", n));
}
/// Rows with combined coefficients. The two factors of a product are interchangeable, and so are
/// the names of witnesses; everything else makes another relation.
fn normal(r: &Rel) -> Vec<[Vec<(usize, i64)>; 3]> {
    let aux: Vec<usize> = (1 + r.n_pub..1 + r.n_pub + r.n_aux).collect();
    let named = |p: &[usize]| -> Vec<[Vec<(usize, i64)>; 3]> {
        r.cons
            .iter()
            .map(|c| {
                let f = |l: &L| -> Vec<(usize, i64)> {
                    let mut m = BTreeMap::new();
                    for (v, x) in l {
                        let v = if *v > r.n_pub { p[*v - 1 - r.n_pub] } else { *v };
                        *m.entry(v).or_insert(0) += x;
                    }
                    m.into_iter().filter(|t| t.1 != 0).collect()
                };
                let (a, b) = (f(&c[0]), f(&c[1]));
                if a <= b { [a, b, f(&c[2])] } else { [b, a, f(&c[2])] }
            })
            .collect()
    };
    let mut all = vec![named(&aux)];
    if aux.len() == 2 {
        all.push(named(&[aux[1], aux[0]]));
    }
    all.into_iter().min().unwrap()
}
/// relations grouped so that one proof makes sense for all of a group
fn groups(full: bool) -> Vec<(String, Vec<Rel>)> {
    let mut out = vec![("one constraint".to_string(), single_constraint_rels(full))];
    // two constraints whose combinations are split between the rows in every way
    let lcs: Vec<L> = vec![vec![], vec![(2, 1)], vec![(0, 1)], vec![(2, 1), (0, 1)]];
    let mut two = vec![];
    for a in 0..3 {
        for t in tuples(&lcs, 2) {
            for u in tuples(&lcs, 2) {
                for base in [vec![(1usize, 1i64)], vec![(3, 1)]] {
                    let mut cons = vec![[base.clone(), base.clone(), base.clone()], [base.clone(), base.clone(), base.clone()]];
                    for r in 0..2 {
                        cons[r][a] = t[r].clone();
                        cons[r][(a + 1) % 3] = u[r].clone();
                    }
                    two.push(Rel { n_pub: 1, n_aux: 2, cons });
                }
            }
        }
    }
    out.push(("two constraints".into(), two));
    // order of the constraints
    let rows: Vec<[L; 3]> = vec![[vec![(2, 1)], vec![(2, 1)], vec![(1, 1)]], [vec![(3, 1)], vec![(2, 1)], vec![(0, 3)]], [vec![(2, 5)], vec![(0, 1)], vec![(3, 1), (1, 2)]]];
    out.push(("three constraints".into(), tuples(&rows, 3).into_iter().map(|t| Rel { n_pub: 1, n_aux: 2, cons: t }).collect()));
    out
}
fn case(r: &Rel) -> Case<F> {
    Case { rel: r.clone(), public: vec![fi(3); r.n_pub], aux: (0..r.n_aux).map(|i| fi(5 + i as i64)).collect(), order: 0, name: "rel".into() }
}
/// For every pair of different relations: one proof, checked against either, must meet different
/// first challenges.
fn relations(ctx: &Ctx, scheme: &str, groups: &[(String, Vec<Rel>)], first: &(dyn Fn(&[Case<F>]) -> Vec<Option<Vec<u8>>> + Sync)) {
    for (g, rels) in groups {
        let cs: Vec<Case<F>> = rels.iter().map(case).collect();
        let ds = first(&cs);
        let mut seen: BTreeMap<Vec<u8>, (usize, Vec<[Vec<(usize, i64)>; 3]>)> = BTreeMap::new();
        for (i, d) in ds.iter().enumerate() {
            let d = match d {
                Some(d) => d,
                None => {
                    ctx.count("no challenge drawn", 1);
                    continue;
                }
            };
            ctx.step(1);
            ctx.trace(1);
            ctx.state(&(scheme, g, &d));
            let n = normal(&rels[i]);
            match seen.get(d) {
                None => {
                    seen.insert(d.clone(), (i, n));
                }
                Some((j, m)) => {
                    ctx.check(*m == n, &format!("relation-not-bound {}", scheme), || format!("{}: the first challenge is the same for {} and {}", scheme, rels[*j].show(), rels[i].show()));
                }
            }
        }
        ctx.count(&format!("{}: distinct first challenges", scheme), seen.len() as u64);
    }
}
/// first challenge when the proof made for the first usable case is checked against each key
fn first_of<S: Scheme<F>>(s: &S, cs: &[Case<F>]) -> Vec<Option<Vec<u8>>>
where
    S::Key: Send,
    S::Proof: Send,
{
    let p0 = cs.iter().find_map(|c| {
        let k = s.setup(c, 3).ok()?;
        s.prove(&k, c, &c.public, &c.aux, 4).ok()
    });
    let p0 = match p0 {
        Some(p) => p,
        None => return vec![None; cs.len()],
    };
    let out = std::sync::Mutex::new(vec![None; cs.len()]);
    par_for(cs, |i, c| {
        let d = s.setup(c, 3).ok().and_then(|k| {
            let (_, l) = logged(|| s.verify(&k, &p0, &c.public));
            challenges(&l).into_iter().next()
        });
        out.lock().unwrap()[i] = d;
    });
    out.into_inner().unwrap()
}
fn bind_relations(ctx: &Ctx) {
    let gs = groups(ctx.thorough());
    relations(ctx, "spartan-nizk", &gs, &|cs| first_of(&sp::Nizk, cs));
    relations(ctx, "spartan-snark", &gs, &|cs| first_of(&sp::Snark, cs));
    relations(ctx, "marlin", &gs, &|cs| first_of(&ma::Marlin::<EBig>::new(), cs));
    relations(ctx, "plonk", &gs, &|cs| first_of(&pl::Compiled, cs));
    // bulletproofs: matrices travel with the proof
    relations(ctx, "bulletproofs", &gs, &|cs| {
        let p0 = cs.iter().find_map(|c| bp::Bp.prove(&(), c, &c.public, &c.aux, 4).ok());
        let p0 = match p0 {
            Some(p) => p,
            None => return vec![None; cs.len()],
        };
        cs.iter()
            .map(|c| {
                let q = bp::Bp.prove(&(), c, &c.public, &c.aux, 4).ok()?;
                let (_, l) = logged(|| bp::check(&q.env, &p0.bytes, &c.public));
                challenges(&l).into_iter().next()
            })
            .collect()
    });
    // layered circuits: their identity is a hash of the wiring
    let mut lc = tiny(ctx.b(2, 3), ctx.b(1, 2));
    lc.extend(patterned(&[(1, 1), (2, 2), (3, 4)], &[1, 2, 3, 4, 5], ctx.b(2, 3), 2));
    for (name, f) in [
        ("libra", &(|c: &Lc| mc_libra::circuit(c).circuit_to_hash::<EBig>()) as &dyn Fn(&Lc) -> F),
        ("hyrax", &|c: &Lc| mc_hyrax::circuit(c).circuit_to_hash::<EBig>()),
    ] {
        let mut seen: BTreeMap<F, &Lc> = BTreeMap::new();
        for c in &lc {
            ctx.step(1);
            let h = f(c);
            ctx.state(&(name, h));
            if let Some(d) = seen.get(&h) {
                let same = d.layers == c.layers && d.half() == c.half();
                ctx.check(same, &format!("circuit-not-bound {}", name), || format!("{}: {} and {} have the same identity", name, d.show(), c.show()));
            } else {
                seen.insert(h, c);
            }
        }
        ctx.count(&format!("{}: distinct circuit identities", name), seen.len() as u64);
    }
    ctx.bound(format!(
        "first challenges of 5 R1CS/gate arguments pairwise different over {} relations (one constraint over a fixed alphabet, two constraints with every split of terms between rows, all orders of constraints); circuit identities over {} layered circuits",
        gs.iter().map(|g| g.1.len()).sum::<usize>(),
        lc.len()
    ));
}
