//! Q01: the sequential build and the parallel build, under every explored schedule of its thread
//! pool, compute the same bytes. The sequential binary computes the expected results and hands
//! them to the parallel binary, whose rayon (harness/rayon-mc) is driven fork by fork.
use ark_bls12_381::Bls12_381;
use ark_ec::PairingEngine;
use ark_ff::{PrimeField, SquareRootField};
use ark_serialize::*;
use mccore::toy::*;
use mccore::*;
use std::hash::{Hash, Hasher};

type Out = Vec<(String, u64)>;
struct Dump {
    out: Out,
}
impl Dump {
    fn put(&mut self, what: &str, b: &[u8]) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        b.hash(&mut h);
        self.out.push((what.to_string(), h.finish()));
    }
    fn obj<T: CanonicalSerialize>(&mut self, what: &str, t: &T) {
        let mut v = vec![];
        t.serialize(&mut v).unwrap();
        self.put(what, &v);
    }
    /// errors count as one result, whatever their text
    fn get<T>(&mut self, what: &str, r: Result<T, String>) -> Option<T> {
        match r {
            Ok(t) => Some(t),
            Err(_) => {
                self.put(what, b"error");
                None
            }
        }
    }
    fn verdicts<F: PrimeField>(&mut self, what: &str, p: &[F], f: impl Fn(&[F]) -> Verdict) {
        let mut s = String::new();
        let mut tries = vec![p.to_vec()];
        for i in 0..p.len() {
            let mut q = p.to_vec();
            q[i] += F::one();
            tries.push(q);
        }
        for q in tries {
            s.push(if f(&q).acc() { 'A' } else { 'r' });
        }
        self.put(&format!("{} verdicts", what), s.as_bytes());
    }
}
fn groth16<E: PairingEngine>(d: &mut Dump, c: &Case<E::Fr>, a: &[E::Fr]) {
    use zkp_groth16::*;
    let p = match d.get("groth16 parameters", flat(guard(|| generator::generate_random_parameters::<E, _, _>(c.blank(), &mut Coins::seeded(1))))) {
        Some(p) => p,
        None => return,
    };
    d.obj("groth16 parameters", &p);
    for (n, r) in [
        ("groth16 proof", flat(guard(|| create_random_proof(&p, c.inst_with(&c.public, a), &mut Coins::seeded(2))))),
        ("groth16 proof without zero knowledge", flat(guard(|| prover::create_proof_no_zk(&p, c.inst_with(&c.public, a))))),
    ] {
        if let Some(pr) = d.get(n, r) {
            d.obj(n, &pr);
            let k = prepare_verifying_key(&p.vk);
            d.verdicts(n, &c.public, |q| Verdict::of(guard(|| verify_proof(&k, &pr, q))));
        }
    }
}
fn marlin<E: PairingEngine>(d: &mut Dump, c: &Case<E::Fr>, a: &[E::Fr]) {
    use zkp_marlin::*;
    let srs = match d.get("marlin parameters", flat(guard(|| universal_setup::<E, _>(mc_marlin::degree(&c.rel), &mut Coins::seeded(1))))) {
        Some(p) => p,
        None => return,
    };
    let (pk, vk) = match d.get("marlin keys", flat(guard(|| index(&srs, c.blank())))) {
        Some(p) => p,
        None => return,
    };
    d.obj("marlin committer key", &pk.committer_key);
    d.obj("marlin verifier key", &vk);
    for p in pk.index.iter() {
        d.obj("marlin index polynomial", p);
    }
    if let Some(pr) = d.get("marlin proof", flat(guard(|| create_random_proof(&pk, c.inst_with(&c.public, a), &mut Coins::seeded(2))))) {
        d.obj("marlin proof", &pr);
        d.verdicts("marlin", &c.public, |q| Verdict::of(guard(|| verify_proof(&vk, &pr, q))));
    }
}
fn bulletproofs<E: PairingEngine>(d: &mut Dump, c: &Case<E::Fr>, a: &[E::Fr])
where
    E::Fr: SquareRootField + From<u32>,
{
    use zkp_bulletproofs::arithmetic_circuit::*;
    if let Some((g, r, pr)) = d.get("bulletproofs proof", flat(guard(|| create_random_proof::<E, _, _>(c.inst_with(&c.public, a), &mut Coins::seeded(2))))) {
        d.obj("bulletproofs generators", &g);
        d.obj("bulletproofs circuit", &r);
        d.obj("bulletproofs proof", &pr);
        d.verdicts("bulletproofs", &c.public, |q| Verdict::of(guard(|| verify_proof(&g, &pr, &r, q))));
    }
}
fn spartan<E: PairingEngine>(d: &mut Dump, c: &Case<E::Fr>, a: &[E::Fr], snark: bool)
where
    E::Fr: SquareRootField + From<u32>,
{
    {
        use zkp_spartan::nizk::*;
        let p = match d.get("spartan nizk parameters", flat(guard(|| generate_random_parameters::<E, _, _>(c.blank(), &mut Coins::seeded(1))))) {
            Some(p) => p,
            None => return,
        };
        d.obj("spartan nizk parameters", &p);
        let h = [p.r1cs.r1cs_to_hash(), p.params.param_to_hash()];
        d.obj("spartan nizk hashes", &h.to_vec());
        let (pk, vk) = p.keypair();
        if let Some(pr) = d.get("spartan nizk proof", flat(guard(|| create_random_proof(&pk, c.inst_with(&c.public, a), h[0], h[1], &mut Coins::seeded(2))))) {
            d.obj("spartan nizk proof", &pr);
            d.verdicts("spartan nizk", &c.public, |q| Verdict::of(guard(|| verify_proof(&vk, &pr, q, h[0], h[1]))));
        }
    }
    if snark {
        use zkp_spartan::snark::*;
        let p = match d.get("spartan snark parameters", flat(guard(|| generate_random_parameters::<E, _, _>(c.blank(), &mut Coins::seeded(1))))) {
            Some(p) => p,
            None => return,
        };
        d.obj("spartan snark parameters", &p);
        let h = [p.r1cs.r1cs_to_hash(), p.params.param_to_hash(), p.encode_comm.encode_to_hash()];
        d.obj("spartan snark hashes", &h.to_vec());
        let (pk, vk) = p.keypair();
        if let Some(pr) = d.get("spartan snark proof", flat(guard(|| create_random_proof(&pk, c.inst_with(&c.public, a), h[0], h[1], h[2], &mut Coins::seeded(2))))) {
            d.obj("spartan snark proof", &pr);
            d.verdicts("spartan snark", &c.public, |q| Verdict::of(guard(|| verify_proof(&vk, &pr, q, h[0], h[1], h[2]))));
        }
    }
}
fn plonk(d: &mut Dump, c: &Case<FBig>, a: &[FBig]) {
    use mc_plonk as pl;
    let cs = pl::compile(&c.rel, &c.public, a);
    let (pk, vk) = match d.get("plonk keys", pl::keys(&cs, 1)) {
        Some(k) => k,
        None => return,
    };
    d.obj("plonk verifier key", &vk);
    if let Some(pr) = d.get("plonk proof", pl::prove(&pk, &cs, 2)) {
        d.obj("plonk proof", &pr);
        let pi = cs.public_inputs().to_vec();
        d.verdicts("plonk", &pi, |q| pl::verify(&vk, q, &pr));
    }
}
fn layered<E: PairingEngine>(d: &mut Dump, c: &LCase<E::Fr>)
where
    E::Fr: SquareRootField + From<u32>,
{
    if c.aux.len() == 1 {
        use zkp_libra::{circuit::Circuit, libra_linear_gkr::LinearGKRProof, libra_zk_linear_gkr::ZKLinearGKRProof, params::Parameters};
        let k = Circuit::new(c.c.ni, c.c.na, &c.c.layers);
        let ch = k.circuit_to_hash::<E>();
        d.obj("libra circuit hash", &ch);
        let pp = Parameters::<E>::new(&mut Coins::seeded(3), 8);
        d.obj("libra parameters", &pp);
        let h = pp.param_to_hash();
        if let Some((pr, out)) = d.get("libra proof", guard(|| ZKLinearGKRProof::<E>::prover(&pp, &k, &c.inputs[0], &c.aux[0], ch, h, &mut Coins::seeded(2)))) {
            d.obj("libra proof", &pr);
            d.obj("libra outputs", &out);
            d.verdicts("libra", &c.inputs[0], |q| Verdict::of(guard(|| pr.verify(&pp, &k, &out, &q.to_vec(), ch, h)).map(Ok::<bool, String>)));
        }
        if let Some((pr, out)) = d.get("libra plain proof", guard(|| LinearGKRProof::<E>::prover(&k, &c.inputs[0], &c.aux[0], ch))) {
            d.obj("libra plain outputs", &out);
            for l in &pr.proofs {
                d.obj("libra sumcheck", &l.proof_phase_one);
                d.obj("libra sumcheck", &l.proof_phase_two);
            }
        }
    }
    {
        use zkp_hyrax::{circuit::Circuit, hyrax_proof::HyraxProof, params::Parameters};
        let k = Circuit::new(c.c.ni, c.c.na, &c.c.layers);
        let ch = k.circuit_to_hash::<E>();
        let pp = Parameters::<E>::new(&mut Coins::seeded(3), 9);
        d.obj("hyrax parameters", &pp);
        let h = pp.param_to_hash();
        if let Some((pr, out)) = d.get("hyrax proof", guard(|| HyraxProof::<E>::prover(&pp, &c.aux, &c.inputs, &k, ch, h, c.aux.len(), &mut Coins::seeded(2)))) {
            d.obj("hyrax proof", &pr);
            d.put("hyrax outputs", format!("{:?}", out).as_bytes());
            d.verdicts("hyrax", &c.inputs[0], |q| {
                let mut i = c.inputs.clone();
                i[0] = q.to_vec();
                Verdict::of(guard(|| pr.verify(&pp, &out, &i, &k, ch, h)).map(Ok::<bool, String>))
            });
        }
    }
}
fn asvc<E: PairingEngine>(d: &mut Dump, n: usize) {
    use zkp_asvc::*;
    let k = match d.get("asvc keys", flat(guard(|| key_gen::<E, _>(n, &mut Coins::seeded(1))))) {
        Some(k) => k,
        None => return,
    };
    let p = &k.proving_key;
    d.obj("asvc proving key", &p.powers_of_g1);
    d.obj("asvc proving key", &p.l_of_g1);
    d.obj("asvc update keys", &p.update_keys.iter().map(|u| u.ai).collect::<Vec<_>>());
    d.obj("asvc update keys", &p.update_keys.iter().map(|u| u.ui).collect::<Vec<_>>());
    d.obj("asvc verification key", &k.verification_key.powers_of_g1);
    d.obj("asvc verification key", &k.verification_key.powers_of_g2);
    d.obj("asvc verification key", &k.verification_key.a);
    let v: Vec<E::Fr> = (0..n).map(|i| E::Fr::from((i * i + 1) as u64)).collect();
    if let Some(c) = d.get("asvc commitment", flat(guard(|| commit::<E>(&k.proving_key, v.clone())))) {
        d.obj("asvc commitment", &c.commit);
    }
    let n = n as u32;
    for p in [vec![0], (0..n).step_by(2).collect::<Vec<_>>(), (0..n).collect()] {
        if let Some(pr) = d.get("asvc proof", flat(guard(|| prove_pos::<E>(&k.proving_key, v.clone(), p.clone())))) {
            d.obj("asvc proof", &pr.w);
        }
    }
}
enum Job {
    Toy(usize, Case<FBig>, bool),
    Real(usize, Case<<Bls12_381 as PairingEngine>::Fr>, bool),
    Layered(LCase<FBig>),
    Vector(usize, bool),
}
impl Job {
    fn show(&self) -> String {
        match self {
            Job::Toy(k, c, bad) => format!("toy #{} bad={} {}", k, bad, c.show()),
            Job::Real(k, c, bad) => format!("bls12-381 #{} bad={} {}", k, bad, c.show()),
            Job::Layered(c) => c.show(),
            Job::Vector(n, real) => format!("vector of {} real={}", n, real),
        }
    }
    fn run(&self) -> Out {
        let mut d = Dump { out: vec![] };
        fn wrong<F: PrimeField>(a: &[F], bad: bool) -> Vec<F> {
            let mut a = a.to_vec();
            if bad && !a.is_empty() {
                let n = a.len() - 1;
                a[n] += F::one();
            }
            a
        }
        match self {
            Job::Toy(k, c, bad) => {
                let a = wrong(&c.aux, *bad);
                match k {
                    0 => groth16::<EBig>(&mut d, c, &a),
                    1 => marlin::<EBig>(&mut d, c, &a),
                    2 => plonk(&mut d, c, &a),
                    3 => bulletproofs::<EBig>(&mut d, c, &a),
                    _ => spartan::<EBig>(&mut d, c, &a, c.rel.cons.len() < 5),
                }
            }
            Job::Real(k, c, bad) => {
                let a = wrong(&c.aux, *bad);
                match k {
                    0 => groth16::<Bls12_381>(&mut d, c, &a),
                    1 => marlin::<Bls12_381>(&mut d, c, &a),
                    2 => bulletproofs::<Bls12_381>(&mut d, c, &a),
                    _ => spartan::<Bls12_381>(&mut d, c, &a, false),
                }
            }
            Job::Layered(c) => layered::<EBig>(&mut d, c),
            Job::Vector(n, false) => asvc::<EBig>(&mut d, *n),
            Job::Vector(n, true) => asvc::<Bls12_381>(&mut d, *n),
        }
        d.out
    }
}
/// jobs, and how closely each is explored: 2 = two steals, 1 = one steal, 0 = policies only
fn jobs(ctx: &Ctx) -> Vec<(Job, usize)> {
    let mut v = vec![];
    let add = |v: &mut Vec<(Job, usize)>, c: &Case<FBig>, depth: usize| {
        for k in 0..5 {
            v.push((Job::Toy(k, c.clone(), false), depth));
        }
    };
    let sat = sweep::<FBig>(ctx.b(2, 4), &[0, 1, 3]);
    for (i, c) in sat.iter().enumerate() {
        if ctx.thorough() || i % 6 == 0 {
            add(&mut v, c, 1);
        }
    }
    for k in 0..SHAPES {
        for n in [3, 5, 9, 17] {
            if ctx.thorough() || n < 9 || k % 4 == 1 {
                let c = shaped(k, n, 1 + k % 3, (k % 4) as u8);
                add(&mut v, &c, if n < 9 { 1 } else { 0 });
                for s in 0..3 {
                    v.push((Job::Toy(s, c.clone(), true), 0));
                }
            }
        }
    }
    // past the sizes below which the algebra crates stay sequential
    for n in if ctx.thorough() { vec![33, 65, 129, 300, 600, 1100] } else { vec![65, 300] } {
        for s in 0..3 {
            v.push((Job::Toy(s, shaped(0, n, 3, 0), false), 0));
        }
        v.push((Job::Toy(0, shaped(0, n, n / 2, 0), false), 0));
        if n < 300 {
            v.push((Job::Toy(0, shaped(1, n, 3, 0), false), 0));
            v.push((Job::Toy(1, shaped(1, n, 3, 0), false), 0));
        }
    }
    for k in 0..ctx.b(2, SHAPES) {
        for s in 0..ctx.b(2, 4) {
            v.push((Job::Real(s, shaped(k, 3, 2, 0), false), 0));
        }
    }
    let ls: Vec<Lc> = patterned(&[(1, 1), (2, 3)], &[1, 3], 2, 1);
    for c in ls.iter().take(ctx.b(4, 40)) {
        v.push((Job::Layered(values(c, 1, 0)), 0));
        v.push((Job::Layered(values(c, 2, 1)), 0));
    }
    for n in [1, 2, 4, 8] {
        v.push((Job::Vector(n, false), 1));
    }
    v.push((Job::Vector(16, false), 0));
    v.push((Job::Vector(4, true), 0));
    v
}
#[cfg(not(feature = "parallel"))]
pub fn q01(ctx: &Ctx) {
    use std::io::Write;
    let bin = std::env::var("MC_PAR").expect("MC_PAR: the parallel build of this binary");
    let js = jobs(ctx);
    let res: Vec<std::sync::Mutex<Out>> = js.iter().map(|_| Default::default()).collect();
    par_for(&js, |i, (j, _)| {
        if std::env::var("MC_TRACE").is_ok() {
            eprintln!("{}", j.show());
        }
        let a = j.run();
        *res[i].lock().unwrap() = a;
    });
    let path = std::env::temp_dir().join(format!("mc-q01-{}", std::process::id()));
    {
        let mut f = std::io::BufWriter::new(std::fs::File::create(&path).unwrap());
        for (i, r) in res.iter().enumerate() {
            for (what, h) in r.lock().unwrap().iter() {
                writeln!(f, "{}\t{}\t{:016x}", i, what, h).unwrap();
            }
        }
    }
    let st = std::process::Command::new(bin).args(["Q01", if ctx.thorough() { "thorough" } else { "quick" }]).env("MC_EXPECT", &path).env_remove("MC_CHILD").status();
    let _ = std::fs::remove_file(&path);
    // the parallel binary has printed the verdict and written the evidence
    std::process::exit(match st {
        Ok(s) => s.code().unwrap_or(2),
        Err(e) => {
            eprintln!("{}", e);
            2
        }
    });
}
#[cfg(feature = "parallel")]
pub fn q01(ctx: &Ctx) {
    use rayon::mc::{planned, Fate, Plan};
    let path = std::env::var("MC_EXPECT").expect("MC_EXPECT: results of the sequential build");
    let js = jobs(ctx);
    let mut expect: Vec<Out> = js.iter().map(|_| vec![]).collect();
    for l in std::fs::read_to_string(path).unwrap().lines() {
        let f: Vec<&str> = l.split('\t').collect();
        expect[f[0].parse::<usize>().unwrap()].push((f[1].into(), u64::from_str_radix(f[2], 16).unwrap()));
    }
    ctx.assume("closures of one leaf of the fork tree run in order; leaves of concurrently running halves are not interleaved with each other (they share no mutable state but through synchronised cells)");
    ctx.bound(format!("{} jobs through the parallel build: pools of 1 to 8 threads, caller inside or outside the pool, all forks kept / stolen late / stolen early / in turns; for the small ones every single fork stolen late or early, against each of the uniform policies{}; and the unmodified scheduler with 1 to 8 threads", js.len(), if ctx.thorough() { ", and every pair of forks of the smallest" } else { "" }));
    let compare = |j: &Job, want: &Out, got: &Out, how: &str| {
        ctx.trace(1);
        ctx.step(1);
        if want != got {
            let at = (0..want.len().max(got.len())).find(|i| want.get(*i) != got.get(*i)).unwrap();
            let what = want.get(at).or(got.get(at)).unwrap().0.clone();
            ctx.violate(&format!("{} differs between the builds", what), || format!("{}: {}", j.show(), how));
        }
    };
    let fate = |p: usize, n: usize| match p {
        0 => Fate::Kept,
        1 => Fate::StolenLate,
        2 => Fate::StolenEarly,
        _ => [Fate::StolenEarly, Fate::Kept, Fate::StolenLate][n % 3],
    };
    const POLICY: [&str; 4] = ["kept", "stolen late", "stolen early", "in turns"];
    let idx: Vec<usize> = (0..js.len()).collect();
    par_for(&idx, |_, &i| {
        let (j, depth) = &js[i];
        let want = &expect[i];
        ctx.state(&(i, want));
        let run = |threads: usize, external: bool, f: Box<dyn FnMut(usize) -> Fate>, how: &dyn Fn() -> String| {
            let (got, n) = planned(Plan { threads, external, fate: f }, || j.run());
            ctx.count("schedules", 1);
            ctx.count("forks", n as u64);
            compare(j, want, &got, &how());
            n
        };
        for t in 1..=8 {
            for ext in [false, true] {
                for p in 0..4 {
                    if t > 1 || p == 0 {
                        run(t, ext, Box::new(move |n| fate(p, n)), &|| format!("{} threads, caller outside: {}, every fork {}", t, ext, POLICY[p]));
                    }
                }
            }
        }
        if *depth > 0 {
            for t in if ctx.thorough() { vec![2, 3, 8] } else { vec![2] } {
                for base in 0..3 {
                    let n = run(t, false, Box::new(move |n| fate(base, n)), &|| "base".into());
                    let cap = ctx.b(250, 4000);
                    if n > cap {
                        ctx.count("jobs whose single steals are strided", 1);
                    }
                    for k in (0..n).step_by(1 + n / cap) {
                        for p in (0..3).filter(|p| *p != base) {
                            run(t, false, Box::new(move |n| fate(if n == k { p } else { base }, n)), &|| format!("{} threads, every fork {} but number {}, {}", t, POLICY[base], k, POLICY[p]));
                        }
                    }
                    if ctx.thorough() && base == 0 && t == 2 && n <= 60 {
                        for k in 0..n {
                            for m in 0..k {
                                for (p, q) in [(1, 1), (1, 2), (2, 1), (2, 2)] {
                                    run(t, false, Box::new(move |n| if n == k { fate(p, n) } else if n == m { fate(q, n) } else { Fate::Kept }), &|| format!("{} threads, forks {} {}, {} {}", t, k, POLICY[p], m, POLICY[q]));
                                }
                            }
                        }
                    }
                }
            }
        }
    });
    // the scheduler as it is
    for t in 1..=8 {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(t).stack_size(64 << 20).build().unwrap();
        for (i, (j, _)) in js.iter().enumerate() {
            if ctx.thorough() || i % 4 == t % 4 {
                let got = pool.install(|| j.run());
                ctx.count("free runs", 1);
                compare(j, &expect[i], &got, &format!("real pool of {} threads", t));
            }
        }
    }
}
