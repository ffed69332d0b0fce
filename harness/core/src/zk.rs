//! Scheme-independent exploration of R1CS proof systems: relation families, honest and cheating
//! provers, byte-level proof tampering.
use crate::circuit::*;
use crate::enumerate::*;
use crate::report::*;
use crate::shape::*;
use ark_ff::Field;

/// A relation together with one satisfying assignment.
#[derive(Clone, Debug)]
pub struct Case<F: Field> {
    pub rel: Rel,
    pub public: Vec<F>,
    pub aux: Vec<F>,
    pub order: u8,
    pub name: String,
}
impl<F: Field> Case<F> {
    pub fn show(&self) -> String {
        format!(
            "{} {} order={} pub={} aux={}",
            self.name,
            if self.rel.cons.len() <= 6 { self.rel.show() } else { format!("({} constraints)", self.rel.cons.len()) },
            self.order,
            vs(&self.public),
            vs(&self.aux)
        )
    }
    pub fn inst(&self) -> Inst<F> {
        self.inst_with(&self.public, &self.aux)
    }
    pub fn inst_with(&self, p: &[F], a: &[F]) -> Inst<F> {
        let mut i = self.rel.inst(Some((p, a)));
        i.order = self.order;
        i
    }
    pub fn blank(&self) -> Inst<F> {
        let mut i: Inst<F> = self.rel.inst(None);
        i.order = self.order;
        i
    }
    pub fn sat_with(&self, p: &[F], a: &[F]) -> bool {
        self.rel.sat(&Rel::z(p, a))
    }
}
pub fn vs<F: core::fmt::Display>(v: &[F]) -> String {
    let s: Vec<String> = v.iter().map(|x| fs(x)).collect();
    format!("[{}]", s.join(","))
}
/// short hex of a field element ("Fp256 \"(000..05)\"" -> 5)
pub fn fs<F: core::fmt::Display>(x: &F) -> String {
    let t = format!("{}", x);
    let h: String = t.chars().skip_while(|c| *c != '(').skip(1).take_while(|c| *c != ')').collect();
    let h = h.trim_start_matches('0').to_string();
    if h.is_empty() { "0".into() } else { format!("0x{}", h) }
}

/// Every one-constraint relation over {1, p1, w1} with A, B, C from a list of linear
/// combinations (including empty ones, repeated variables and cancelling terms), with every
/// assignment over `vals`; satisfying and violating ones separated.
pub fn single_constraint_rels(full: bool) -> Vec<Rel> {
    let mut lcs: Vec<L> = vec![
        vec![],
        vec![(0, 1)],
        vec![(1, 1)],
        vec![(2, 1)],
        vec![(2, 1), (2, 1)],
        vec![(1, -1), (2, 1), (0, 1)],
    ];
    if full {
        lcs.push(vec![(0, 2)]);
        lcs.push(vec![(1, 1), (2, 3), (1, -1)]);
        lcs.push(vec![(2, 1), (2, -1)]);
    }
    let mut out = vec![];
    for a in &lcs {
        for b in &lcs {
            for c in &lcs {
                out.push(Rel { n_pub: 1, n_aux: 1, cons: vec![[a.clone(), b.clone(), c.clone()]] });
            }
        }
    }
    out
}

/// A satisfied relation with `n` constraints, `np` public inputs, of the given shape.
/// Every shape is satisfiable by construction; values depend only on the arguments.
pub fn shaped<F: Field>(shape: usize, n: usize, np: usize, order: u8) -> Case<F> {
    let mut public: Vec<F> = (0..np).map(|i| F::from((3 + 2 * i) as u64)).collect();
    let mut aux: Vec<F> = vec![];
    let mut cons: Vec<[L; 3]> = vec![];
    // variable numbers: 0 one, 1..=np publics, np+1.. witnesses
    let p = |i: usize| if np == 0 { 0 } else { 1 + (i % np) };
    let w = |i: usize| 1 + np + i;
    let name;
    match shape {
        0 => {
            name = "mul-chain";
            aux.push(F::from(2u64));
            for i in 0..n {
                let b: L = vec![(w(i), 1), (p(i), 1), (0, i as i64)];
                let z = Rel::z(&public, &aux);
                let v = aux[i] * Rel::lc_val(&b, &z);
                cons.push([vec![(w(i), 1)], b, vec![(w(i + 1), 1)]]);
                aux.push(v);
            }
        }
        1 => {
            name = "dense";
            aux.push(F::from(5u64));
            for i in 0..n {
                let mut a: L = (0..=i).map(|k| (w(k), k as i64 - 1)).collect();
                for k in 0..np {
                    a.push((1 + k, -(k as i64) - 2));
                }
                let mut b: L = a.clone();
                b.reverse();
                b.push((0, 7));
                let z = Rel::z(&public, &aux);
                let v = Rel::lc_val(&a, &z) * Rel::lc_val(&b, &z);
                // next = v - sum(previous)
                let mut c: L = vec![(w(i + 1), 1)];
                c.extend((0..=i).map(|k| (w(k), 1)));
                let s: F = aux.iter().fold(F::zero(), |x, y| x + y);
                aux.push(v - s);
                cons.push([a, b, c]);
            }
        }
        2 => {
            name = "bits";
            // n-1 boolean witnesses (n>=1), last constraint packs them into public 1 (or a witness)
            let nb = n.saturating_sub(1);
            let mut pack: L = vec![];
            let mut tot = F::zero();
            for i in 0..nb {
                let bit = (i * 7 + 1) % 3 != 0;
                aux.push(if bit { F::one() } else { F::zero() });
                cons.push([vec![(w(i), 1)], vec![(w(i), 1), (0, -1)], vec![]]);
                let co = 1i64 << (i % 20);
                pack.push((w(i), co));
                if bit {
                    tot += fi::<F>(co);
                }
            }
            if np > 0 {
                public[0] = tot;
                cons.push([pack, vec![(0, 1)], vec![(1, 1)]]);
            } else {
                aux.push(tot);
                cons.push([pack, vec![(0, 1)], vec![(w(nb), 1)]]);
            }
        }
        3 => {
            name = "linear";
            aux.push(F::from(9u64));
            for i in 0..n {
                let a: L = vec![(w(i), 2), (p(i), 1), (w(i), -1)]; // repeated variable
                let z = Rel::z(&public, &aux);
                let v = Rel::lc_val(&a, &z);
                cons.push([a, vec![(0, 1)], vec![(w(i + 1), 1)]]);
                aux.push(v);
            }
        }
        4 => {
            name = "zeros-and-repeats";
            aux.push(F::zero());
            aux.push(F::from(6u64));
            for i in 0..n {
                match i % 4 {
                    0 => cons.push([vec![], vec![(w(1), 1)], vec![]]),
                    1 => cons.push([vec![(w(0), 1), (w(0), 4)], vec![(w(1), 1), (w(1), 1)], vec![]]),
                    2 => cons.push([vec![(w(1), 1), (w(1), 1)], vec![(0, 1), (0, 2)], vec![(w(1), 5), (w(1), 1)]]),
                    _ => cons.push([vec![(w(1), 1), (w(1), -1)], vec![(p(i), 1)], vec![(w(0), 1)]]),
                }
            }
        }
        5 => {
            name = "square-of-witness";
            // each constraint has its own secret: w_i^2 = v_i, publics are added up with them
            for i in 0..n {
                let s = F::from((i + 2) as u64);
                let k = aux.len();
                aux.push(s);
                let add = Rel::lc_val(&vec![(p(i), 1)], &Rel::z(&public, &aux));
                aux.push(s.square() + add);
                cons.push([vec![(w(k), 1)], vec![(w(k), 1)], vec![(w(k + 1), 1), (p(i), -1)]]);
            }
        }
        6 => {
            name = "output-public";
            // public k is the product of two secrets
            for i in 0..n {
                let k = aux.len();
                aux.push(F::from((i + 2) as u64));
                aux.push(F::from((i + 5) as u64));
                let prod = aux[k] * aux[k + 1];
                if i < np {
                    public[i] = prod;
                    cons.push([vec![(w(k), 1)], vec![(w(k + 1), 1)], vec![(1 + i, 1)]]);
                } else {
                    aux.push(prod);
                    cons.push([vec![(w(k), 1)], vec![(w(k + 1), 1)], vec![(w(k + 2), 1)]]);
                }
            }
        }
        _ => {
            name = "unused-variables";
            aux.push(F::from(4u64));
            aux.push(F::from(16u64));
            aux.push(F::from(11u64)); // unused witness
            if np > 0 {
                public[np - 1] = F::zero();
            }
            for _ in 0..n {
                cons.push([vec![(w(0), 1)], vec![(w(0), 1)], vec![(w(1), 1)]]);
            }
        }
    }
    let rel = Rel { n_pub: np, n_aux: aux.len(), cons };
    let c = Case { rel, public, aux, order, name: format!("{}/{}x{}", name, n, np) };
    assert!(c.sat_with(&c.public, &c.aux), "reference: {} unsatisfied", c.name);
    c
}
pub const SHAPES: usize = 8;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    Accept,
    Reject(String),
    Crash(String),
}
impl Verdict {
    pub fn of<E: core::fmt::Debug>(r: Result<Result<bool, E>, String>) -> Verdict {
        match r {
            Ok(Ok(true)) => Verdict::Accept,
            Ok(Ok(false)) => Verdict::Reject("false".into()),
            Ok(Err(e)) => Verdict::Reject(format!("{:?}", e)),
            Err(p) => Verdict::Crash(p),
        }
    }
    pub fn acc(&self) -> bool {
        matches!(self, Verdict::Accept)
    }
    pub fn show(&self) -> String {
        match self {
            Verdict::Accept => "accept".into(),
            Verdict::Reject(s) => format!("reject({})", s),
            Verdict::Crash(s) => format!("crash({})", s),
        }
    }
}

/// A proof system for R1CS relations, driven through its public interface.
pub trait Scheme<F: Field>: Sync {
    type Key: Sync;
    type Proof: Clone + Sync;
    /// circuit-specific (or universal + indexing) setup
    fn setup(&self, c: &Case<F>, seed: u64) -> Result<Self::Key, String>;
    /// run the real prover on an arbitrary (possibly wrong) assignment
    fn prove(&self, k: &Self::Key, c: &Case<F>, p: &[F], a: &[F], seed: u64) -> Result<Self::Proof, String>;
    fn verify(&self, k: &Self::Key, pr: &Self::Proof, p: &[F]) -> Verdict;
    fn bytes(&self, pr: &Self::Proof) -> Vec<u8>;
    /// decode proof bytes; `like` supplies whatever accompanies a proof (keys made by the prover)
    fn parse(&self, like: &Self::Proof, b: &[u8]) -> Option<Self::Proof>;
    /// structure of the encoding (see shape.rs), for restructuring mutations
    fn schema(&self) -> Option<&'static str> {
        None
    }
    /// mutations that do not change the meaning of a proof in the toy algebra
    fn benign(&self, _what: &str) -> bool {
        false
    }
}

/// Flatten nested guard results.
pub fn flat<T, E: core::fmt::Debug>(r: Result<Result<T, E>, String>) -> Result<T, String> {
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(format!("error {:?}", e)),
        Err(p) => Err(format!("panic {}", p)),
    }
}

pub fn completeness<F: Field, S: Scheme<F>>(ctx: &Ctx, s: &S, cases: &[Case<F>], seeds: &[u64]) {
    par_for(cases, |_, c| {
        for &seed in seeds {
            ctx.step(3);
            let k = match s.setup(c, seed) {
                Ok(k) => k,
                Err(e) => {
                    ctx.violate(&format!("setup-fails {}", site(&e)), || format!("{} coins#{}: setup: {}", c.show(), seed, e));
                    continue;
                }
            };
            let pr = match s.prove(&k, c, &c.public, &c.aux, seed ^ 0x55) {
                Ok(p) => p,
                Err(e) => {
                    ctx.violate(&format!("prover-fails {}", site(&e)), || format!("{} coins#{}: honest prover: {}", c.show(), seed, e));
                    continue;
                }
            };
            let v = s.verify(&k, &pr, &c.public);
            ctx.trace(1);
            ctx.state(&(c.name.as_str(), c.rel.clone(), c.order, s.bytes(&pr)));
            if !v.acc() {
                ctx.violate(
                    match &v {
                        Verdict::Crash(_) => "honest-proof-crashes-verifier",
                        _ => "honest-proof-rejected",
                    },
                    || format!("{} coins#{}: verifier: {}", c.show(), seed, v.show()),
                );
            }
            // the proof survives its own encoding
            match s.parse(&pr, &s.bytes(&pr)) {
                Some(p2) if s.bytes(&p2) == s.bytes(&pr) && s.verify(&k, &p2, &c.public).acc() == v.acc() => {}
                _ => ctx.violate("proof-encoding-roundtrip", || format!("{} coins#{}", c.show(), seed)),
            }
            ctx.sample("honest run", || format!("{} -> {}", c.show(), v.show()));
        }
    });
}
/// "file:line" part of a panic message or the error text
pub fn site(e: &str) -> String {
    match e.rfind(" at ") {
        Some(i) => {
            let t = &e[i + 4..];
            let t = t.rsplit('/').take(3).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/");
            // drop the line number: it moves under unrelated edits
            let t = t.split(':').next().unwrap_or("").to_string();
            let m = e[..i].split('`').next().unwrap_or("").trim().to_string();
            let m: String = m.chars().filter(|c| !c.is_ascii_digit()).collect();
            format!("[{} @ {}]", m.trim(), t)
        }
        None => format!("[{}]", e),
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Watch {
    /// report accepted forgeries
    Accepts,
    /// report verifier crashes
    Crashes,
}
pub struct Sound {
    pub watch: Watch,
    pub bad_witness: bool,
    pub bad_public: bool,
    pub tamper: bool,
    /// maximum number of byte positions mutated per proof (all when usize::MAX)
    pub max_tamper: usize,
}

fn note(ctx: &Ctx, w: Watch, v: &Verdict, key: &str, d: impl Fn() -> String) {
    match (w, v) {
        (Watch::Accepts, Verdict::Accept) => ctx.violate(key, || d()),
        (Watch::Crashes, Verdict::Crash(m)) => ctx.violate(&format!("{} {}", key, site(m)), || format!("{}: {}", d(), m)),
        _ => {}
    }
    ctx.count(
        match v {
            Verdict::Accept => "verdict accept",
            Verdict::Reject(_) => "verdict reject",
            Verdict::Crash(_) => "verdict crash",
        },
        1,
    );
}

/// All single-variable perturbations of a vector: +1, -1, 0, negated, doubled, swapped with next.
pub fn perturb<F: Field>(v: &[F]) -> Vec<Vec<F>> {
    let mut out: Vec<Vec<F>> = vec![];
    for i in 0..v.len() {
        let mut alts = vec![v[i] + F::one(), v[i] - F::one(), F::zero(), -v[i], v[i].double(), F::one()];
        alts.dedup();
        for a in alts {
            if a != v[i] {
                let mut w = v.to_vec();
                w[i] = a;
                if !out.contains(&w) {
                    out.push(w);
                }
            }
        }
        if i + 1 < v.len() && v[i] != v[i + 1] {
            let mut w = v.to_vec();
            w.swap(i, i + 1);
            out.push(w);
        }
    }
    out
}

/// Every single-position mutation of a proof's encoding that still parses to something else:
/// each byte ±1, and each aligned 8-byte word zeroed, set to one, or exchanged with another word.
pub fn mutations(b: &[u8], max: usize) -> Vec<(String, Vec<u8>)> {
    let mut out = vec![];
    let n = b.len();
    let stride = if max == usize::MAX { 1 } else { (n / max.max(1)).max(1) };
    for i in (0..n).step_by(stride) {
        let mut w = b.to_vec();
        w[i] = w[i].wrapping_add(1);
        out.push((format!("byte {} +1", i), w));
        let mut w = b.to_vec();
        w[i] = w[i].wrapping_sub(1);
        out.push((format!("byte {} -1", i), w));
    }
    let words = n / 8;
    let ws = if max == usize::MAX { 1 } else { (words / (max / 8).max(1)).max(1) };
    for i in (0..words).step_by(ws) {
        for val in [0u64, 1u64] {
            let mut w = b.to_vec();
            w[i * 8..i * 8 + 8].copy_from_slice(&val.to_le_bytes());
            if w != b {
                out.push((format!("word {} := {}", i, val), w));
            }
        }
        for j in [i + 1, i + 2, i + 3] {
            if j < words {
                let mut w = b.to_vec();
                for k in 0..8 {
                    w.swap(i * 8 + k, j * 8 + k);
                }
                if w != b {
                    out.push((format!("words {}<->{}", i, j), w));
                }
            }
        }
    }
    out
}

pub fn soundness<F: Field, S: Scheme<F>>(ctx: &Ctx, s: &S, cases: &[Case<F>], seeds: &[u64], o: &Sound) {
    par_for(cases, |_, c| {
        for &seed in seeds {
            let k = match s.setup(c, seed) {
                Ok(k) => k,
                Err(_) => {
                    ctx.count("setup refused", 1);
                    continue;
                }
            };
            // 1. the real prover run on every single-variable corruption of the assignment
            if o.bad_witness {
                for a in perturb(&c.aux) {
                    if c.sat_with(&c.public, &a) {
                        continue;
                    }
                    ctx.step(1);
                    match s.prove(&k, c, &c.public, &a, seed ^ 0x77) {
                        Err(_) => ctx.count("prover refused bad witness", 1),
                        Ok(pr) => {
                            let v = s.verify(&k, &pr, &c.public);
                            ctx.trace(1);
                            ctx.state(&(c.name.as_str(), c.rel.clone(), s.bytes(&pr)));
                            note(ctx, o.watch, &v, "unsatisfying-witness", || {
                                format!("{}: witness replaced by {} (violates the relation): {}", c.show(), vs(&a), v.show())
                            });
                        }
                    }
                }
                // ... and of the public part, proving the false statement outright
                for p in perturb(&c.public) {
                    if c.sat_with(&p, &c.aux) {
                        continue;
                    }
                    ctx.step(1);
                    if let Ok(pr) = s.prove(&k, c, &p, &c.aux, seed ^ 0x79) {
                        let v = s.verify(&k, &pr, &p);
                        ctx.trace(1);
                        ctx.state(&(c.name.as_str(), c.rel.clone(), s.bytes(&pr)));
                        note(ctx, o.watch, &v, "unsatisfying-witness", || {
                            format!("{}: public replaced by {} (violates the relation), same witness: {}", c.show(), vs(&p), v.show())
                        });
                    }
                }
            }
            let pr = match s.prove(&k, c, &c.public, &c.aux, seed ^ 0x55) {
                Ok(p) => p,
                Err(_) => {
                    ctx.count("prover refused honest witness", 1);
                    continue;
                }
            };
            let hv = s.verify(&k, &pr, &c.public);
            if !hv.acc() {
                ctx.count("honest baseline not accepted", 1);
            }
            // 2. honest proof, different public inputs
            if o.bad_public {
                let mut alts: Vec<(&str, Vec<F>)> = perturb(&c.public).into_iter().map(|p| ("public-input-changed", p)).collect();
                if !c.public.is_empty() {
                    alts.push(("public-input-dropped", c.public[..c.public.len() - 1].to_vec()));
                    alts.push(("public-input-dropped", c.public[1..].to_vec()));
                    alts.push(("public-input-dropped", vec![]));
                }
                for x in [F::zero(), F::one()] {
                    let mut p = c.public.clone();
                    p.push(x);
                    alts.push(("public-input-appended", p));
                }
                let mut p = vec![F::one()];
                p.extend_from_slice(&c.public);
                alts.push(("public-input-prepended", p));
                let mut p = c.public.clone();
                p.extend(vec![F::zero(); 9]);
                alts.push(("public-input-appended", p));
                for (key, p) in alts {
                    ctx.step(1);
                    let v = s.verify(&k, &pr, &p);
                    ctx.trace(1);
                    ctx.state(&(c.name.as_str(), c.rel.clone(), vs(&p)));
                    note(ctx, o.watch, &v, key, || format!("{}: proof checked against publics {}: {}", c.show(), vs(&p), v.show()));
                }
            }
            // 3. every single-position tampering of the proof
            if o.tamper {
                let b = s.bytes(&pr);
                let mut ms: Vec<(&str, String, Vec<u8>)> = mutations(&b, o.max_tamper).into_iter().map(|(w, m)| ("tampered-proof", w, m)).collect();
                if let Some(sch) = s.schema() {
                    match Sch::parse(sch).decode(&b) {
                        Some(t) => ms.extend(t.restructured().into_iter().map(|(w, t)| ("restructured-proof", w, t.encode()))),
                        None => ctx.count("proof does not match its schema", 1),
                    }
                }
                for (kind, what, m) in ms {
                    if s.benign(&what) {
                        continue;
                    }
                    let parsed = guard(|| s.parse(&pr, &m));
                    let p2 = match parsed {
                        Ok(Some(p2)) => p2,
                        Ok(None) => {
                            ctx.count("mutation unparsable", 1);
                            continue;
                        }
                        Err(e) => {
                            note(ctx, o.watch, &Verdict::Crash(e), "decoder", || format!("{}: {}", c.show(), what));
                            continue;
                        }
                    };
                    if s.bytes(&p2) == b {
                        ctx.count("mutation decodes to the same proof", 1);
                        continue;
                    }
                    ctx.step(1);
                    let v = s.verify(&k, &p2, &c.public);
                    ctx.trace(1);
                    ctx.state(&(c.name.as_str(), what.as_str(), c.rel.clone()));
                    note(ctx, o.watch, &v, kind, || format!("{}: proof {} -> {}", c.show(), what, v.show()));
                }
            }
            ctx.sample("baseline", || format!("{} -> {}", c.show(), hv.show()));
        }
    });
}

/// Proof bytes under different coins must differ in every randomised element, and the witness
/// must not be recoverable by equality: two proofs of the same statement with different coins differ.
pub fn coin_sensitivity<F: Field, S: Scheme<F>>(ctx: &Ctx, s: &S, c: &Case<F>, seeds: &[u64]) -> Vec<Vec<u8>> {
    let mut out = vec![];
    if let Ok(k) = s.setup(c, 1) {
        for &sd in seeds {
            if let Ok(p) = s.prove(&k, c, &c.public, &c.aux, sd) {
                out.push(s.bytes(&p));
                ctx.trace(1);
            }
        }
    }
    out
}

/// every shape x 0..=max_n constraints x the given public-input counts, rotating allocation orders
pub fn sweep<F: Field>(max_n: usize, pubs: &[usize]) -> Vec<Case<F>> {
    let mut v = vec![];
    for shape in 0..SHAPES {
        for n in 0..=max_n {
            for &np in pubs {
                v.push(shaped::<F>(shape, n, np, ((n + np + shape) % 3) as u8));
            }
        }
    }
    v
}
/// sizes at which narrow counters, tables and radix steps change: around each power of two up to
/// 2^k, with many publics as well as many witnesses
pub fn ladder<F: Field>(k: u32, shapes: &[usize]) -> Vec<Case<F>> {
    let mut v = vec![];
    for j in (5..=k).rev() {
        let m = 1usize << j;
        for n in [m + 1, m, m - 1] {
            for &s in shapes {
                v.push(shaped::<F>(s, n, 2, 0));
            }
        }
        // publics instead of constraints
        for n in [m + 1, m, m - 1, m - 2] {
            v.push(shaped::<F>(0, 3, n, 0));
        }
    }
    v
}
/// every assignment of a relation over `vals`, with the reference verdict
pub fn all_assignments<F: Field>(rel: &Rel, vals: &[i64]) -> Vec<(Vec<F>, Vec<F>, bool)> {
    let n = rel.n_pub + rel.n_aux;
    tuples(vals, n)
        .into_iter()
        .map(|t| {
            let v: Vec<F> = t.iter().map(|x| fi::<F>(*x)).collect();
            let (p, a) = (v[..rel.n_pub].to_vec(), v[rel.n_pub..].to_vec());
            let s = rel.sat(&Rel::z(&p, &a));
            (p, a, s)
        })
        .collect()
}
/// all satisfying assignments of all one-constraint relations
pub fn single_cases<F: Field>(full: bool, vals: &[i64]) -> Vec<Case<F>> {
    let mut cs = vec![];
    for r in single_constraint_rels(full) {
        for (p, a, s) in all_assignments::<F>(&r, vals) {
            if s {
                cs.push(Case { rel: r.clone(), public: p, aux: a, order: 0, name: "single".into() });
            }
        }
    }
    cs
}
/// Every relation of two constraints whose linear combinations are single terms: the constant,
/// the public input, one of the `n_aux` witness values and, if `empty`, nothing.
pub fn double_rels(n_aux: usize, empty: bool) -> Vec<Rel> {
    let mut lcs: Vec<L> = (0..n_aux + 2).map(|i| vec![(i, 1)]).collect();
    if empty {
        lcs.push(vec![]);
    }
    let one: Vec<[L; 3]> = tuples(&lcs, 3).into_iter().map(|t| [t[0].clone(), t[1].clone(), t[2].clone()]).collect();
    let mut out = vec![];
    for a in &one {
        for b in &one {
            out.push(Rel { n_pub: 1, n_aux, cons: vec![a.clone(), b.clone()] });
        }
    }
    out
}
/// (relations, values): the two-constraint relations of a tier
pub fn doubles(thorough: bool) -> (Vec<Rel>, &'static [i64]) {
    if thorough {
        let mut v = double_rels(1, true);
        v.extend(double_rels(2, false));
        (v, &[-1, 0, 2])
    } else {
        (double_rels(1, false), &[-1, 0, 1, 2])
    }
}
/// the real prover on every assignment of every two-constraint relation: accepted if it satisfies
/// (`sat`), not accepted if it does not (`!sat`)
pub fn double_sweep<F: Field, S: Scheme<F>>(ctx: &Ctx, s: &S, sat: bool) {
    let (rels, vals) = doubles(ctx.thorough());
    ctx.bound(format!("all {} two-constraint relations of single terms x every {} assignment over {:?}", rels.len(), if sat { "satisfying" } else { "violating" }, vals));
    if sat {
        let mut cs = vec![];
        for r in rels {
            for (p, a, ok) in all_assignments::<F>(&r, vals) {
                if ok {
                    cs.push(Case { rel: r.clone(), public: p, aux: a, order: 0, name: "double".into() });
                }
            }
        }
        completeness(ctx, s, &cs, &[1]);
    } else {
        rels_unsound(ctx, s, &rels, vals);
    }
}
/// the real prover on every violating assignment of every one-constraint relation
pub fn single_unsound<F: Field, S: Scheme<F>>(ctx: &Ctx, s: &S, full: bool, vals: &[i64]) {
    rels_unsound(ctx, s, &single_constraint_rels(full), vals)
}
/// the real prover on every violating assignment of the relations
pub fn rels_unsound<F: Field, S: Scheme<F>>(ctx: &Ctx, s: &S, rels: &[Rel], vals: &[i64]) {
    par_for(rels, |_, r| {
        let c = Case { rel: r.clone(), public: vec![F::one(); r.n_pub], aux: vec![F::one(); r.n_aux], order: 0, name: "small".into() };
        let k = match s.setup(&c, 3) {
            Ok(k) => k,
            Err(_) => return,
        };
        for (p, a, sat) in all_assignments::<F>(r, vals) {
            if sat {
                continue;
            }
            ctx.step(1);
            if let Ok(pr) = s.prove(&k, &c, &p, &a, 9) {
                ctx.trace(1);
                ctx.state(&(r.clone(), vs(&p), vs(&a)));
                let v = s.verify(&k, &pr, &p);
                ctx.check(!v.acc(), "unsatisfying-witness", || format!("{} p={} w={}: {}", r.show(), vs(&p), vs(&a), v.show()));
            }
        }
    });
}
/// A proof made for one relation's key must not verify under the key of a relation the
/// statement does not satisfy.
pub fn cross_key<F: Field, S: Scheme<F>>(ctx: &Ctx, s: &S, cases: &[Case<F>]) {
    let ks: Vec<Option<(S::Key, S::Proof)>> = cases
        .iter()
        .map(|c| {
            let k = s.setup(c, 5).ok()?;
            let p = s.prove(&k, c, &c.public, &c.aux, 6).ok()?;
            Some((k, p))
        })
        .collect();
    let n = cases.len();
    let jobs: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).filter(|(i, j)| i != j).collect();
    par_for(&jobs, |_, (i, j)| {
        if let (Some((_, p)), Some((k, _))) = (&ks[*i], &ks[*j]) {
            if cases[*i].rel == cases[*j].rel {
                return;
            }
            let v = s.verify(k, p, &cases[*i].public);
            ctx.step(1);
            ctx.trace(1);
            ctx.check(!v.acc(), "proof-accepted-under-another-relation", || format!("proof of {} accepted by the key of {}", cases[*i].show(), cases[*j].show()));
        }
    });
}

/// statements whose transcripts are tabulated: 0 few, 1 some, 2 many
pub fn fs_shapes<F: ark_ff::PrimeField>(level: usize) -> Vec<Case<F>> {
    let mut v = vec![(0usize, 1usize, 1usize), (1, 3, 2), (6, 3, 2)];
    if level >= 1 {
        v.extend([(2, 5, 1), (3, 4, 3), (5, 2, 2)]);
    }
    if level >= 2 {
        for s in 0..SHAPES {
            for n in [1, 2, 3, 5, 8] {
                for p in 1..=4 {
                    if !v.contains(&(s, n, p)) {
                        v.push((s, n, p));
                    }
                }
            }
        }
    }
    v.into_iter().map(|(s, n, p)| shaped(s, n, p, 0)).collect()
}
