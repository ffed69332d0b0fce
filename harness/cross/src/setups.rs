//! U01: the elements a setup publishes are as independent as its coins allow. Over the toy group
//! discrete logarithms are visible, so the setup is a map from its coins to field elements; the
//! rank of its derivative says on how many coins the published elements really depend. A commitment
//! key of m generators must depend on m of them: otherwise somebody knows a relation between its
//! generators and commitments bind nothing.
use ark_ff::{Field, Zero};
use mccore::rng::forced;
use mccore::toy::*;
use mccore::*;
use std::collections::BTreeMap;

type E = EBig;
type F = FBig;
type Named = Vec<(String, F)>;
/// the part of a setup that has to be independent, how many secrets it stands for, and its elements
struct Key {
    what: String,
    rank: usize,
    els: Named,
}
fn word(n: usize, salt: u64) -> u64 {
    let mut z = (n as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15) ^ (salt + 11).wrapping_mul(0xD1342543DE82EF95);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    (z ^ (z >> 31)) >> 5
}
fn key(what: &str, g: &[A<CfgBig, 1>], more: &[(&str, A<CfgBig, 1>)]) -> Key {
    let mut els: Named = g.iter().enumerate().map(|(i, x)| (format!("generator {}", i), x.0)).collect();
    els.extend(more.iter().map(|(n, x)| (n.to_string(), x.0)));
    Key { what: what.into(), rank: els.len(), els }
}
fn structured(what: &str, rank: usize, els: Named) -> Key {
    Key { what: what.into(), rank, els }
}
/// rows: element index -> derivative; returns the rank and, for the first dependent row, its index
fn rank(cols: &[Vec<F>], rows: usize) -> (usize, Option<usize>) {
    let mut basis: Vec<(usize, Vec<F>)> = vec![];
    let mut first = None;
    for r in 0..rows {
        let mut v: Vec<F> = cols.iter().map(|c| c[r]).collect();
        for (p, b) in &basis {
            let x = v[*p];
            if !x.is_zero() {
                for (a, y) in v.iter_mut().zip(b) {
                    *a -= x * y;
                }
            }
        }
        match v.iter().position(|x| !x.is_zero()) {
            Some(p) => {
                let i = v[p].inverse().unwrap();
                v.iter_mut().for_each(|x| *x *= i);
                basis.push((p, v));
            }
            None => {
                first.get_or_insert(r);
            }
        }
    }
    (basis.len(), first)
}
/// the setup under `seeds` different coins, and under every change of a single coin
fn probe(ctx: &Ctx, scheme: &str, show: &str, seeds: u64, run: &dyn Fn() -> Result<Vec<Key>, String>) {
    for seed in 0..seeds {
        let words = |k: usize| (0..k).map(|i| word(i, seed)).collect::<Vec<_>>();
        let (r, n) = forced(words(3000), run);
        ctx.step(1);
        let k0 = match r {
            Ok(k) => k,
            Err(e) => {
                ctx.count(&format!("{}: no setup", scheme), 1);
                ctx.sample("no setup", || format!("{} {}: {}", scheme, show, e));
                continue;
            }
        };
        assert!(n < 3000, "{} {}: {} draws", scheme, show, n);
        ctx.state(&(scheme, show, seed));
        let mut cols: Vec<Vec<Vec<F>>> = vec![];
        for i in 0..n {
            let mut c = words(n + 64);
            c[i] += 1;
            ctx.step(1);
            if let (Ok(k), m) = forced(c, run) {
                if m == n && k.len() == k0.len() && k.iter().zip(&k0).all(|(a, b)| a.els.len() == b.els.len()) {
                    cols.push(k.iter().zip(&k0).map(|(a, b)| a.els.iter().zip(&b.els).map(|(x, y)| x.1 - y.1).collect()).collect());
                    continue;
                }
            }
            ctx.count("coins that decide how much is drawn", 1);
        }
        for (ki, k) in k0.iter().enumerate() {
            ctx.trace(1);
            let c: Vec<Vec<F>> = cols.iter().map(|c| c[ki].clone()).collect();
            let (r, dep) = rank(&c, k.els.len());
            ctx.count(&format!("{}: {}: independent elements", scheme, k.what), r as u64);
            ctx.check(r >= k.rank, &format!("{}: {}: dependent setup elements", scheme, k.what), || {
                format!("{} coins {}: {} elements stand for {} independent secrets, but depend on {} only; first determined by those before it: {}", show, seed, k.els.len(), k.rank, r, dep.map(|d| k.els[d].0.clone()).unwrap_or_default())
            });
            for (i, (name, x)) in k.els.iter().enumerate() {
                ctx.check(!x.is_zero(), &format!("{}: {}: trivial setup element", scheme, k.what), || format!("{} coins {}: {} is the neutral element", show, seed, name));
                if k.rank == k.els.len() {
                    for (m, y) in &k.els[..i] {
                        ctx.check(x != y, &format!("{}: {}: repeated setup element", scheme, k.what), || format!("{} coins {}: {} = {}", show, seed, name, m));
                    }
                }
            }
        }
    }
}
fn mc1<T: ark_serialize::CanonicalSerialize>(t: &T) -> Vec<u8> {
    let mut v = vec![];
    t.serialize(&mut v).unwrap();
    v
}
pub fn u01(ctx: &Ctx) {
    use ark_serialize::CanonicalDeserialize;
    let seeds = ctx.b(3u64, 8);
    let max = ctx.b(10usize, 24);
    ctx.bound(format!("setups of 8 proof systems and the vector commitment for relations of 1..{} constraints in {} shapes, every polynomial degree / vector size / number of variables up to {}; {} base coin sequences and, for each, every single coin changed", max, 8, ctx.b(40, 160), seeds));
    ctx.assume("over the toy group, whose discrete logarithms are visible, the curve-generic setup code runs unchanged");
    let mut cases: Vec<Case<F>> = vec![];
    for shape in 0..SHAPES {
        for n in 1..=max {
            for np in [1, 3] {
                cases.push(shaped(shape, n, np, 0));
            }
        }
    }
    let pc = |what: &str, n: &[A<CfgBig, 1>], g: &[A<CfgBig, 1>], h: A<CfgBig, 1>, h1: A<CfgBig, 1>| -> Key {
        let mut more: Vec<(&str, A<CfgBig, 1>)> = g.iter().map(|x| ("generator for single values", *x)).collect();
        more.push(("blinding generator", h));
        if h1 != h {
            more.push(("blinding generator for single values", h1));
        }
        key(what, n, &more)
    };
    par_for(&cases, |_, c| {
        let show = c.show();
        let (p, a) = (&c.public, &c.aux);
        probe(ctx, "bulletproofs", &show, seeds, &|| {
            let pr = mc_bulletproofs::Bp.prove(&(), c, p, a, 1)?;
            let g = mc_bulletproofs::GensM::deserialize(&mc1(&pr.env.0)[..]).map_err(|e| format!("{:?}", e))?;
            Ok(vec![{ let e = g.all(); Key { what: "generators".into(), rank: e.len(), els: e } }])
        });
        probe(ctx, "groth16", &show, seeds, &|| {
            let (p, _) = mc_groth16::Groth::<E>::new().setup(c, 1)?;
            let mut e: Named = vec![];
            for (n, v) in [("a", &p.a_query), ("b", &p.b_g1_query), ("h", &p.h_query), ("l", &p.l_query), ("abc", &p.vk.gamma_abc_g1)] {
                // entries of variables that do not occur in a matrix are zero
                e.extend(v.iter().enumerate().filter(|x| !x.1 .0.is_zero()).map(|(i, x)| (format!("{} {}", n, i), x.0)));
            }
            e.extend(vec![("alpha 1".to_string(), p.vk.alpha_g1.0), ("beta 1".into(), p.beta_g1.0), ("delta 1".into(), p.delta_g1.0)]);
            e.extend(vec![("beta 2".to_string(), p.vk.beta_g2.0), ("gamma 2".into(), p.vk.gamma_g2.0), ("delta 2".into(), p.vk.delta_g2.0)]);
            // alpha, beta, gamma, delta, tau and the two generators
            Ok(vec![structured("keys", 7, e)])
        });
        use zkp_spartan::{nizk, snark};
        fn sat(r: &zkp_spartan::data_structure::R1CSSatisfiedParameters<E>, pc: &dyn Fn(&str, &[A<CfgBig, 1>], &[A<CfgBig, 1>], A<CfgBig, 1>, A<CfgBig, 1>) -> Key) -> Vec<Key> {
            let mut k = vec![pc("witness commitment key", &r.pc_params.gen_n.generators, &r.pc_params.gen_1.generators, r.pc_params.gen_n.h, r.pc_params.gen_1.h)];
            for (n, m) in [("key for single values", &r.sc_params.gen_1), ("key for 3 values", &r.sc_params.gen_3), ("key for 4 values", &r.sc_params.gen_4)] {
                k.push(key(n, &m.generators, &[("blinding generator", m.h)]));
            }
            k
        }
        probe(ctx, "spartan-nizk", &show, seeds, &|| {
            let p = flat(guard(|| nizk::generate_random_parameters::<E, _, _>(c.blank(), &mut Coins::seeded(1))))?;
            Ok(sat(&p.params.r1cs_satisfied_params, &pc))
        });
        if c.rel.cons.len() <= ctx.b(5, 8) {
            probe(ctx, "spartan-snark", &show, seeds, &|| {
                let p = flat(guard(|| snark::generate_random_parameters::<E, _, _>(c.blank(), &mut Coins::seeded(1))))?;
                let mut k = sat(&p.params.r1cs_satisfied_params, &pc);
                let e = &p.params.r1cs_eval_params;
                for (n, q) in [("operations key", &e.ops_params), ("memory key", &e.mem_params), ("lookups key", &e.derefs_params)] {
                    k.push(pc(n, &q.gen_n.generators, &q.gen_1.generators, q.gen_n.h, q.gen_1.h));
                }
                Ok(k)
            });
        }
    });
    let sizes: Vec<usize> = (1..=ctx.b(40usize, 160)).collect();
    par_for(&sizes, |_, &n| {
        probe(ctx, "polynomial commitment", &format!("degree {}", n), seeds, &|| {
            let p = flat(guard(|| zkp_marlin::pc::PC::<E>::setup(n, &mut Coins::seeded(1))))?;
            let mut e: Named = vec![];
            e.extend(p.powers_of_g.iter().enumerate().map(|(i, x)| (format!("power {}", i), x.0)));
            e.extend(p.powers_of_gamma_g.iter().enumerate().map(|(i, x)| (format!("hiding power {}", i), x.0)));
            e.extend(vec![("h".to_string(), p.h.0), ("beta h".into(), p.beta_h.0)]);
            // beta, g, gamma g and h
            Ok(vec![structured("powers", 4, e)])
        });
        probe(ctx, "vector commitment", &format!("size {}", n), seeds, &|| {
            let p = flat(guard(|| zkp_asvc::key_gen::<E, _>(n, &mut Coins::seeded(1))))?;
            let mut e: Named = p.proving_key.powers_of_g1.iter().enumerate().map(|(i, x)| (format!("power {}", i), x.0)).collect();
            e.extend(p.verification_key.powers_of_g2.iter().enumerate().map(|(i, x)| (format!("second power {}", i), x.0)));
            // tau and the two generators
            Ok(vec![structured("powers", 3, e)])
        });
        if n <= ctx.b(10, 14) {
            probe(ctx, "libra", &format!("{} variables", n), seeds, &|| {
                let p = guard(|| zkp_libra::params::Parameters::<E>::new(&mut Coins::seeded(1), n))?;
                let mut k = vec![pc("witness commitment key", &p.pc_params.gen_n.generators, &p.pc_params.gen_1.generators, p.pc_params.gen_n.h, p.pc_params.gen_1.h)];
                for (n, m) in [("key for single values", &p.sc_params.gen_1), ("key for 3 values", &p.sc_params.gen_3), ("key for 4 values", &p.sc_params.gen_4)] {
                    k.push(key(n, &m.generators, &[("blinding generator", m.h)]));
                }
                Ok(k)
            });
            probe(ctx, "hyrax", &format!("{} variables", n), seeds, &|| {
                let p = guard(|| zkp_hyrax::params::Parameters::<E>::new(&mut Coins::seeded(1), n))?;
                let mut k = vec![pc("witness commitment key", &p.pc_params.gen_n.generators, &p.pc_params.gen_1.generators, p.pc_params.gen_n.h, p.pc_params.gen_1.h)];
                for (n, m) in [("key for single values", &p.sc_params.gen_1), ("key for 3 values", &p.sc_params.gen_3), ("key for 4 values", &p.sc_params.gen_4)] {
                    k.push(key(n, &m.generators, &[("blinding generator", m.h)]));
                }
                Ok(k)
            });
        }
    });
}
