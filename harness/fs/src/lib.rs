//! Exploration of Fiat-Shamir proofs as interactive protocols: with the verifier's challenges
//! under the explorer's control, every causal single or paired alteration of the messages is run
//! through the real verifier.
use ark_ff::{Field, PrimeField};
use mccore::*;
use merlin::mc::{logged, scripted, Ev, Script};
use std::collections::BTreeMap;

/// one statement with its honest prover and the verifier, over encoded proofs
pub struct Subject<F> {
    pub name: String,
    pub schema: &'static str,
    pub publics: Vec<F>,
    pub prove: Box<dyn Fn(u64) -> Result<Vec<u8>, String> + Sync>,
    pub verify: Box<dyn Fn(&[u8], &[F]) -> Verdict + Sync>,
}

fn mix(seed: u64, n: u64, k: u64) -> u64 {
    let mut z = seed
        .wrapping_mul(0xA24BAED4963EE407)
        .wrapping_add(n.wrapping_mul(0x9FB21C651E98DF25))
        .wrapping_add(k.wrapping_mul(0xD6E8FEB86659FD93))
        .wrapping_add(0x632BE59BD9B4E019);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
/// challenge number n is the n-th block of a fixed stream; `other` selects another block for it
pub fn fixed(seed: u64, other: Option<(usize, u64)>) -> Script {
    Box::new(move |_, n, out| {
        let s = match other {
            Some((k, o)) if k == n => seed ^ o,
            _ => seed,
        };
        for (i, ch) in out.chunks_mut(8).enumerate() {
            let w = mix(s, n as u64, i as u64).to_le_bytes();
            let l = ch.len();
            ch.copy_from_slice(&w[..l]);
        }
    })
}
/// the stream `fixed(seed, None)` with one bit of byte `j` of challenge `k` flipped
pub fn flipped(seed: u64, k: usize, j: usize) -> Script {
    let mut base = fixed(seed, None);
    Box::new(move |l, n, out| {
        base(l, n, out);
        if n == k && j < out.len() {
            out[j] ^= 4;
        }
    })
}
pub fn challenges(log: &[Ev]) -> Vec<Vec<u8>> {
    log.iter().filter_map(|e| if let Ev::Challenge(_, c) = e { Some(c.clone()) } else { None }).collect()
}
/// index of the first challenge that an alteration changes (Ok), or the number of challenges seen
/// before the runs stopped agreeing for lack of further events (Err)
pub fn first_affected(honest: &[Ev], other: &[Ev]) -> Result<usize, usize> {
    let mut n = 0;
    for (a, b) in honest.iter().zip(other) {
        if a != b {
            return Ok(n);
        }
        if let Ev::Challenge(..) = a {
            n += 1;
        }
    }
    Err(n)
}

/// a word of the statement or of the proof
#[derive(Clone, Debug, PartialEq)]
pub enum At {
    Pub(usize),
    Proof(Vec<usize>),
}
impl At {
    pub fn show(&self) -> String {
        match self {
            At::Pub(i) => format!("statement[{}]", i),
            At::Proof(p) => format!("proof{:?}", p).replace(' ', ""),
        }
    }
    /// path with list positions erased, stable under the size of the relation
    pub fn class(&self, sch: &Sch) -> String {
        match self {
            At::Pub(_) => "statement".into(),
            At::Proof(p) => {
                let mut s = "proof".to_string();
                let mut c = sch;
                for i in p {
                    match c {
                        Sch::Seq(v) => {
                            s += &format!(".{}", i);
                            c = &v[*i];
                        }
                        Sch::List(x) => {
                            s += "[]";
                            c = x;
                        }
                        Sch::Opt(x) => {
                            s += "?";
                            c = x;
                        }
                        _ => {}
                    }
                }
                s
            }
        }
    }
}
fn to_f<F: PrimeField>(w: u64) -> F {
    F::from(w)
}
fn to_w<F: PrimeField>(f: F) -> u64 {
    f.into_repr().as_ref()[0]
}
pub struct Opened<F> {
    pub tree: Tree,
    pub publics: Vec<F>,
    pub words: Vec<At>,
}
impl<F: PrimeField> Opened<F> {
    pub fn new(s: &Subject<F>, b: &[u8]) -> Option<Self> {
        let tree = Sch::parse(s.schema).decode(b)?;
        let mut words: Vec<At> = (0..s.publics.len()).map(At::Pub).collect();
        words.extend(tree.words().into_iter().map(At::Proof));
        Some(Opened { tree, publics: s.publics.clone(), words })
    }
    pub fn get(&self, a: &At) -> F {
        match a {
            At::Pub(i) => self.publics[*i],
            At::Proof(p) => match self.tree.clone().at(p) {
                Tree::Word(w) => to_f(*w),
                _ => unreachable!(),
            },
        }
    }
    pub fn with(&self, ch: &[(&At, F)]) -> (Vec<u8>, Vec<F>) {
        let mut t = self.tree.clone();
        let mut p = self.publics.clone();
        for (a, d) in ch {
            match a {
                At::Pub(i) => p[*i] += *d,
                At::Proof(q) => {
                    if let Tree::Word(w) = t.at(q) {
                        *w = to_w(to_f::<F>(*w) + *d);
                    }
                }
            }
        }
        (t.encode(), p)
    }
}
pub struct Causal {
    /// pairs of words at most this far apart in the encoding (statement words pair with all)
    pub window: usize,
    /// at most this many challenges as coefficients (those nearest before the later word)
    pub nearest: usize,
}
/// The prover's view: for each word, the first challenge it influences.
pub fn bind_times<F: PrimeField>(s: &Subject<F>, b: &[u8], o: &Opened<F>) -> Vec<Result<usize, usize>> {
    let (_, honest) = logged(|| (s.verify)(b, &s.publics));
    o.words
        .iter()
        .map(|w| {
            let (m, p) = o.with(&[(w, F::one())]);
            let (_, l) = logged(|| (s.verify)(&m, &p));
            first_affected(&honest, &l)
        })
        .collect()
}

/// Every causal alteration of one or two words, with challenges held fixed as an interactive
/// verifier that has already received the earlier messages would: the verifier must reject.
pub fn causal<F: PrimeField>(ctx: &Ctx, subjects: &[Subject<F>], o: &Causal) {
    causal_but(ctx, subjects, o, |_, _| false)
}
/// As `causal`, without the alterations of words (or pairs) that carry redundant information:
/// `redundant(p, q)` for positions of proof words, p == q for a single word.
pub fn causal_but<F: PrimeField>(ctx: &Ctx, subjects: &[Subject<F>], o: &Causal, redundant: fn(&[usize], &[usize]) -> bool) {
    causal_in(ctx, subjects, o, redundant, |c| vec![F::from_random_bytes(c).unwrap_or_else(F::one)])
}
/// As `causal_but`, for transcripts whose challenges are turned into field elements by `values`.
pub fn causal_in<F: PrimeField>(ctx: &Ctx, subjects: &[Subject<F>], o: &Causal, redundant: fn(&[usize], &[usize]) -> bool, values: fn(&[u8]) -> Vec<F>) {
    let exempt = |a: &At, b: &At| match (a, b) {
        (At::Proof(p), At::Proof(q)) => redundant(p, q),
        _ => false,
    };
    let mut jobs: Vec<(usize, usize)> = vec![];
    let mut prep = vec![];
    for (k, s) in subjects.iter().enumerate() {
        let seed = 77;
        let b = match scripted(fixed(seed, None), || (s.prove)(5)) {
            Ok(b) => b,
            Err(e) => {
                ctx.count("prover refused honest witness", 1);
                ctx.sample("refused", || format!("{}: {}", s.name, e));
                prep.push(None);
                continue;
            }
        };
        let (v, log) = scripted(fixed(seed, None), || logged(|| (s.verify)(&b, &s.publics)));
        // times are measured on a proof made without a script
        let op = Opened::new(s, &b);
        // (one of the same structure: the order of openings may depend on the challenges)
        let like = op.as_ref().map(|o| o.words.clone());
        let made = || (5..25).filter_map(|k| (s.prove)(k).ok().and_then(|b| Opened::new(s, &b).map(|o| (b, o))));
        let real = made().find(|(_, o)| Some(&o.words) == like.as_ref()).or_else(|| made().next());
        if !v.acc() || op.is_none() || real.is_none() {
            ctx.count(if v.acc() { "proof does not match its schema" } else { "scripted honest run not accepted" }, 1);
            prep.push(None);
            continue;
        }
        let (rb, ro) = real.unwrap();
        let op = op.unwrap();
        if ro.words != op.words {
            ctx.count("proof structure depends on the challenges", 1);
            prep.push(None);
            continue;
        }
        let times: Vec<usize> = bind_times(s, &rb, &ro)
            .into_iter()
            .map(|t| match t {
                Ok(t) | Err(t) => t,
            })
            .collect();
        let ch: Vec<Vec<F>> = challenges(&log).iter().map(|c| values(c)).collect();
        for i in 0..op.words.len() {
            jobs.push((k, i));
        }
        prep.push(Some((op, times, ch)));
    }
    par_for(&jobs, |_, (k, i)| {
        let s = &subjects[*k];
        let (op, times, ch) = prep[*k].as_ref().unwrap();
        let sch = Sch::parse(s.schema);
        let run = |c: &[(&At, F)]| {
            let (b, p) = op.with(c);
            ctx.step(1);
            ctx.trace(1);
            scripted(fixed(77, None), || (s.verify)(&b, &p))
        };
        let w = &op.words[*i];
        let cur = op.get(w);
        for d in [F::one(), -F::one(), -cur, cur, -cur - cur] {
            if d.is_zero() || exempt(w, w) {
                continue;
            }
            ctx.state(&(*k, *i, to_w(d)));
            let v = run(&[(w, d)]);
            ctx.check(!v.acc(), &format!("unchecked-word {}", w.class(&sch)), || {
                format!("{}: with fixed challenges, {} {} -> {} still accepted", s.name, w.show(), fs(&cur), fs(&(cur + d)))
            });
        }
        for j in *i + 1..op.words.len() {
            let x = &op.words[j];
            if !matches!(w, At::Pub(_)) && j > *i + o.window {
                break;
            }
            if exempt(w, x) {
                ctx.count("pairs of words carrying redundant information", 1);
                continue;
            }
            let t = times[*i].max(times[j]);
            let mut ks: Vec<(String, F)> = vec![];
            let two = F::one().double();
            for (n, k) in [("1", F::one()), ("2", two), ("1/2", two.inverse().unwrap())] {
                ks.push((n.into(), k));
                ks.push((format!("-{}", n), -k));
            }
            for c in (0..t.min(ch.len())).rev().take(o.nearest) {
                for x in ch[c].iter().cloned() {
                    let y = F::one() - x;
                    for (n, k) in [("c", x), ("(1-c)", y), ("c^2", x * x)] {
                        if let Some(inv) = k.inverse() {
                            ks.push((format!("{}#{}", n, c), k));
                            ks.push((format!("-{}#{}", n, c), -k));
                            ks.push((format!("1/{}#{}", n, c), inv));
                            ks.push((format!("-1/{}#{}", n, c), -inv));
                        }
                    }
                    if let Some(r) = y.inverse().map(|r| r * x) {
                        ks.push((format!("-c/(1-c)#{}", c), -r));
                        if let Some(q) = r.inverse() {
                            ks.push((format!("-(1-c)/c#{}", c), -q));
                        }
                    }
                }
            }
            for (n, kk) in ks {
                ctx.state(&(*k, *i, j, to_w(kk)));
                let v = run(&[(w, F::one()), (x, kk)]);
                ctx.check(!v.acc(), &format!("compensated-words {} {}", w.class(&sch), x.class(&sch)), || {
                    format!("{}: with fixed challenges, {} +1 and {} + ({}) accepted (first challenges influenced: {} and {})", s.name, w.show(), x.show(), n, times[*i], times[j])
                });
            }
        }
    });
    ctx.bound(format!(
        "interactive adversary on {} statements: every single word of statement and proof altered, every pair at distance <= {} altered by (1, k) for k built from the {} nearest challenges known when the later word is sent",
        subjects.len(),
        o.window,
        o.nearest
    ));
}

/// The binding table of one subject: class of word -> latest first-influenced challenge
pub fn binding<F: PrimeField>(s: &Subject<F>) -> Option<Vec<(At, Result<usize, usize>)>> {
    let b = (s.prove)(5).ok()?;
    let o = Opened::new(s, &b)?;
    let t = bind_times(s, &b, &o);
    Some(o.words.iter().cloned().zip(t).collect())
}
pub fn table<F: PrimeField>(s: &Subject<F>) -> Option<BTreeMap<String, Vec<usize>>> {
    let sch = Sch::parse(s.schema);
    let mut m: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (a, t) in binding(s)? {
        m.entry(a.class(&sch)).or_default().push(match t {
            Ok(t) => t,
            Err(_) => 9999,
        });
    }
    Some(m)
}

/// For each proof word: number of the last challenge whose value it depends on, plus one (so the
/// word can only have been sent from then on).
pub fn sent_after<F: PrimeField>(s: &Subject<F>) -> Option<(Vec<At>, Vec<usize>, usize)> {
    let seed = 77;
    let (b, log) = scripted(fixed(seed, None), || logged(|| (s.prove)(5)));
    let o = Opened::new(s, &b.ok()?)?;
    let n = challenges(&log).len();
    let mut last = vec![0; o.words.len()];
    for k in 0..n {
        let b = scripted(fixed(seed, Some((k, 0x5555))), || (s.prove)(5)).ok()?;
        let q = Opened::new(s, &b)?;
        if q.words != o.words {
            return None;
        }
        for (i, w) in o.words.iter().enumerate() {
            if o.get(w) != q.get(w) {
                last[i] = k + 1;
            }
        }
    }
    Some((o.words.clone(), last, n))
}
pub fn dump<F: PrimeField>(s: &Subject<F>) {
    let sch = Sch::parse(s.schema);
    let (w, last, n) = match sent_after(s) {
        Some(x) => x,
        None => {
            println!("{}: no dependency data", s.name);
            return;
        }
    };
    let b = match binding(s) {
        Some(b) => b,
        None => return,
    };
    println!("# {} challenges={}", s.name, n);
    for (i, (a, t)) in b.iter().enumerate() {
        assert_eq!(*a, w[i]);
        let late = match t {
            Ok(t) => *t > last[i],
            Err(_) => true,
        };
        println!("{:30} {:28} sent after {:3}  influences {:?}{}", a.show(), a.class(&sch), last[i], t, if late { "  <-- late" } else { "" });
    }
}

/// Per challenge of an honest run: for how many of its bytes an alteration seen by the verifier
/// alone makes it reject.
fn decided<F: PrimeField>(s: &Subject<F>) -> Option<Vec<(usize, usize)>> {
    let seed = 77;
    let b = scripted(fixed(seed, None), || (s.prove)(5)).ok()?;
    let (v, log) = scripted(fixed(seed, None), || logged(|| (s.verify)(&b, &s.publics)));
    if !v.acc() {
        return None;
    }
    let ch = challenges(&log);
    Some(
        (0..ch.len())
            .map(|k| {
                let n = ch[k].len();
                let hit = (0..n).filter(|j| !scripted(flipped(seed, k, *j), || (s.verify)(&b, &s.publics)).acc()).count();
                (n, hit)
            })
            .collect(),
    )
}
fn decides() -> String {
    format!("{}/harness/fs/decides.txt", std::env::var("MC_VERIF").unwrap_or("/verif".into()))
}
/// write the table of the current tree (developer command; never run by a check)
pub fn write_decides<F: PrimeField>(ss: &[(String, Subject<F>)]) {
    let mut out = String::from("# per challenge of an honest run, largest first: number of its bytes that decide the verdict\n");
    for (k, s) in ss {
        out += &format!("@{}\n{}\n", k, ranked(&decided(s).unwrap_or_else(|| panic!("{}", k))).iter().map(|n| n.to_string()).collect::<Vec<_>>().join(" "));
    }
    std::fs::write(decides(), out).unwrap();
}
fn ranked(d: &[(usize, usize)]) -> Vec<usize> {
    let mut v: Vec<usize> = d.iter().map(|t| t.1).filter(|n| *n > 0).collect();
    v.sort_by(|a, b| b.cmp(a));
    v
}
/// Every challenge of the protocol takes part in the verdict, with all the entropy it had.
pub fn all_decide<F: PrimeField>(ctx: &Ctx, ss: &[(String, Subject<F>)]) {
    let mut text = std::fs::read_to_string(decides()).expect("decides.txt");
    // where only the seeds of the challenge stream are observed
    text += &std::fs::read_to_string(decides().replace("decides", "decides-seeds")).expect("decides-seeds.txt");
    let mut want: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    let mut l = text.lines().filter(|l| !l.starts_with('#'));
    while let (Some(k), Some(v)) = (l.next(), l.next()) {
        want.insert(k[1..].into(), v.split(' ').filter(|t| !t.is_empty()).map(|t| t.parse().unwrap()).collect());
    }
    par_for(ss, |_, (k, s)| {
        let scheme = k.split(' ').next().unwrap();
        let (d, w) = match (decided(s), want.get(k)) {
            (Some(d), Some(w)) => (d, w),
            _ => {
                ctx.count("statement without a scripted run", 1);
                return;
            }
        };
        for (i, (n, hit)) in d.iter().enumerate() {
            ctx.step(*n as u64);
            ctx.trace(*n as u64);
            ctx.state(&(k, i, hit));
        }
        let now = ranked(&d);
        ctx.check(now.len() >= w.len(), &format!("challenges-without-effect {}", scheme), || {
            format!("{}: {} challenges take part in the verdict, the protocol has {} (deciding bytes per challenge: {:?})", s.name, now.len(), w.len(), d)
        });
        ctx.check(now.iter().zip(w).all(|(a, b)| a >= b), &format!("challenge-loses-entropy {}", scheme), || {
            format!("{}: deciding bytes per challenge {:?}, the protocol's are {:?}", s.name, now, w)
        });
        ctx.count("challenges that decide", now.len() as u64);
    });
    ctx.bound(format!("{} statements: every byte of every challenge altered at the verifier alone", ss.len()));
}
