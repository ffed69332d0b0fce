//! Reference model of layered arithmetic circuits and the generic exploration of the proof
//! systems for them.
use crate::circuit::fi;
use crate::enumerate::par_for;
use crate::report::*;
use crate::shape::Sch;
use crate::zk::{fs, mutations, perturb, site, vs, Verdict};
use ark_ff::Field;

/// (operation: 0 add / 1 multiply, left, right) over the gates of the layer below
pub type Gates = Vec<(u8, usize, usize)>;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Lc {
    pub na: usize,
    pub ni: usize,
    pub layers: Vec<Gates>,
}
impl Lc {
    pub fn half(&self) -> usize {
        self.na.max(self.ni).next_power_of_two()
    }
    /// the input layer: witnesses padded with zeros, then inputs padded with zeros
    pub fn base<F: Field>(&self, aux: &[F], inputs: &[F]) -> Vec<F> {
        let h = self.half();
        let mut v = aux.to_vec();
        v.resize(h, F::zero());
        v.extend_from_slice(inputs);
        v.resize(2 * h, F::zero());
        v
    }
    pub fn over<F: Field>(&self, base: &[F]) -> Vec<F> {
        let mut v = base.to_vec();
        for l in &self.layers {
            v = l.iter().map(|(op, a, b)| if *op == 0 { v[*a] + v[*b] } else { v[*a] * v[*b] }).collect();
        }
        v
    }
    pub fn eval<F: Field>(&self, aux: &[F], inputs: &[F]) -> Vec<F> {
        self.over(&self.base(aux, inputs))
    }
    pub fn show(&self) -> String {
        let l: Vec<String> = self
            .layers
            .iter()
            .map(|l| l.iter().map(|(o, a, b)| format!("{}{}{}", a, if *o == 0 { '+' } else { '*' }, b)).collect::<Vec<_>>().join(","))
            .collect();
        format!("aux={} in={} [{}]", self.na, self.ni, l.join(" | "))
    }
    /// layer widths including the (padded) input layer, in bits
    pub fn bits(&self) -> Vec<u32> {
        let lg = |n: usize| n.next_power_of_two().trailing_zeros();
        std::iter::once(lg(2 * self.half())).chain(self.layers.iter().map(|l| lg(l.len()))).collect()
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Stmt<F> {
    pub outputs: Vec<Vec<F>>,
    pub inputs: Vec<Vec<F>>,
}
impl<F: Field> Stmt<F> {
    pub fn flat(&self) -> Vec<F> {
        self.outputs.iter().chain(&self.inputs).flatten().cloned().collect()
    }
    pub fn unflat(&self, v: &[F]) -> Stmt<F> {
        let mut it = v.iter().cloned();
        let mut take = |x: &Vec<Vec<F>>| x.iter().map(|r| r.iter().map(|_| it.next().unwrap()).collect()).collect();
        let outputs = take(&self.outputs);
        let inputs = take(&self.inputs);
        Stmt { outputs, inputs }
    }
    pub fn show(&self) -> String {
        let l = |x: &Vec<Vec<F>>| x.iter().map(|v| vs(v)).collect::<Vec<_>>().join("");
        format!("out={} in={}", l(&self.outputs), l(&self.inputs))
    }
}
#[derive(Clone, Debug)]
pub struct LCase<F> {
    pub c: Lc,
    /// one entry per copy of the circuit
    pub aux: Vec<Vec<F>>,
    pub inputs: Vec<Vec<F>>,
}
impl<F: Field> LCase<F> {
    pub fn outputs(&self) -> Vec<Vec<F>> {
        self.aux.iter().zip(&self.inputs).map(|(a, i)| self.c.eval(a, i)).collect()
    }
    pub fn show(&self) -> String {
        let l = |x: &Vec<Vec<F>>| x.iter().map(|v| vs(v)).collect::<Vec<_>>().join("");
        format!("{} w={} x={}", self.c.show(), l(&self.aux), l(&self.inputs))
    }
}
pub trait LScheme<F: Field>: Sync {
    /// The honest prover for `c`, with the circuit identity (hash) of `named`
    fn prove(&self, c: &LCase<F>, named: &Lc, seed: u64) -> Result<(Vec<u8>, Stmt<F>), String>;
    fn verify(&self, c: &Lc, b: &[u8], s: &Stmt<F>) -> Verdict;
    /// re-encoding of a decoded proof
    fn parse(&self, b: &[u8]) -> Option<Vec<u8>>;
    fn schema(&self) -> &'static str;
}

/// the k-th value of a fixed stream of small, mutually different numbers
fn val(k: usize) -> i64 {
    [2, 3, 5, -1, 7, 11, 0, 13, 1, 17, -6, 19][k % 12] + 23 * (k / 12) as i64
}
pub fn values<F: Field>(c: &Lc, copies: usize, salt: usize) -> LCase<F> {
    let mut k = salt;
    let mut row = |n: usize| -> Vec<F> {
        (0..n)
            .map(|_| {
                k += 1;
                fi(val(k - 1))
            })
            .collect()
    };
    let mut aux = vec![];
    let mut inputs = vec![];
    for _ in 0..copies {
        aux.push(row(c.na));
        inputs.push(row(c.ni));
    }
    LCase { c: c.clone(), aux, inputs }
}
/// all gates over n nodes
pub fn gates(n: usize) -> Gates {
    let mut v = vec![];
    for op in 0..2u8 {
        for a in 0..n {
            for b in 0..n {
                v.push((op, a, b));
            }
        }
    }
    v
}
/// a fixed pattern of `w` gates over n nodes
pub fn pattern(w: usize, n: usize, salt: usize) -> Gates {
    (0..w)
        .map(|g| {
            let m = (g + 1) * 7 + salt * 13;
            (((m / 3 + salt) % 2) as u8, (m * 5 + g) % n, (m + g * g + salt) % n)
        })
        .collect()
}
/// every circuit with one layer of up to `g1` gates over two input nodes, and every circuit with
/// two gates below up to `g2` gates
pub fn tiny(g1: usize, g2: usize) -> Vec<Lc> {
    let mut v = vec![];
    for (na, ni) in [(1, 1), (1, 0), (0, 1)] {
        for g in 1..=g1 {
            for l in crate::enumerate::tuples(&gates(2), g) {
                v.push(Lc { na, ni, layers: vec![l] });
            }
        }
    }
    for l in crate::enumerate::tuples(&gates(2), 2) {
        for g in 1..=g2 {
            for m in crate::enumerate::tuples(&gates(2), g) {
                v.push(Lc { na: 1, ni: 1, layers: vec![l.clone(), m] });
            }
        }
    }
    v
}
/// patterned circuits: every combination of the given input shapes and layer widths
pub fn patterned(shapes: &[(usize, usize)], widths: &[usize], depth: usize, salts: usize) -> Vec<Lc> {
    let mut v = vec![];
    for &(na, ni) in shapes {
        for d in 1..=depth {
            for ws in crate::enumerate::tuples(widths, d) {
                for salt in 0..salts {
                    let mut n = 2 * na.max(ni).next_power_of_two();
                    let mut layers = vec![];
                    for w in &ws {
                        layers.push(pattern(*w, n, salt + layers.len()));
                        n = *w;
                    }
                    v.push(Lc { na, ni, layers });
                }
            }
        }
    }
    v
}

pub fn l_complete<F: Field, S: LScheme<F>>(ctx: &Ctx, s: &S, cases: &[LCase<F>]) {
    par_for(cases, |_, c| {
        ctx.step(2);
        let (b, st) = match s.prove(c, &c.c, 7) {
            Ok(x) => x,
            Err(e) => {
                ctx.violate(&format!("prover-fails {}", site(&e)), || format!("{}: {}", c.show(), e));
                return;
            }
        };
        ctx.state(&(c.c.clone(), &b));
        ctx.trace(1);
        if st.outputs != c.outputs() {
            ctx.violate("outputs-differ-from-circuit", || format!("{}: prover's outputs {} instead of {}", c.show(), st.show(), c.outputs().iter().map(|v| vs(v)).collect::<String>()));
        }
        let v = s.verify(&c.c, &b, &st);
        if !v.acc() {
            ctx.violate(if let Verdict::Crash(_) = v { "honest-proof-crashes-verifier" } else { "honest-proof-rejected" }, || format!("{}: {}", c.show(), v.show()));
        }
        match s.parse(&b) {
            Some(b2) if b2 == b => {}
            _ => ctx.violate("proof-encoding-roundtrip", || c.show()),
        }
        ctx.sample("honest run", || format!("{} -> {} {}", c.show(), st.show(), v.show()));
    });
}
pub struct LSound {
    pub max_tamper: usize,
    pub crashes: bool,
}
/// Honest proof against every altered statement, every single-position alteration of the proof,
/// every restructured list.
pub fn l_sound<F: Field, S: LScheme<F>>(ctx: &Ctx, s: &S, cases: &[LCase<F>], o: &LSound) {
    let note = |v: &Verdict, key: &str, d: &dyn Fn() -> String| {
        if v.acc() && !o.crashes {
            ctx.violate(key, d);
        }
        if let Verdict::Crash(e) = v {
            if o.crashes {
                ctx.violate(&format!("verifier-crash {} {}", key, site(e)), d);
            } else {
                ctx.count("verifier crashed (counted as not accepting)", 1);
            }
        }
    };
    par_for(cases, |_, c| {
        let (b, st) = match s.prove(c, &c.c, 7) {
            Ok(x) => x,
            Err(_) => {
                ctx.count("prover refused honest case", 1);
                return;
            }
        };
        if !s.verify(&c.c, &b, &st).acc() {
            ctx.count("honest baseline not accepted", 1);
        }
        let fl = st.flat();
        for p in perturb(&fl) {
            if p.len() != fl.len() {
                continue;
            }
            let t = st.unflat(&p);
            ctx.step(1);
            ctx.trace(1);
            ctx.state(&(c.c.clone(), t.show()));
            let v = s.verify(&c.c, &b, &t);
            note(&v, "statement-changed", &|| format!("{}: proof for {} checked for {}: {}", c.show(), st.show(), t.show(), v.show()));
        }
        // another number of outputs, inputs, copies
        let mut alts: Vec<(String, Stmt<F>)> = vec![];
        for k in 0..st.outputs.len().max(st.inputs.len()) {
            for which in 0..2 {
                for (n, x) in [("+1", F::one()), ("+0", F::zero())] {
                    let mut t = st.clone();
                    let r = if which == 0 { &mut t.outputs } else { &mut t.inputs };
                    if let Some(r) = r.get_mut(k) {
                        // an extra zero is the same (zero-padded) statement
                        if x.is_zero() && !o.crashes {
                            continue;
                        }
                        r.push(x);
                        alts.push((format!("{} {} {}", if which == 0 { "output" } else { "input" }, k, n), t));
                    }
                    let mut t = st.clone();
                    let r = if which == 0 { &mut t.outputs } else { &mut t.inputs };
                    if let Some(r) = r.get_mut(k) {
                        if r.last().map_or(false, |x| !x.is_zero()) || o.crashes {
                            r.pop();
                            alts.push((format!("{} {} dropped", if which == 0 { "output" } else { "input" }, k), t));
                        }
                    }
                    let mut t = st.clone();
                    let r = if which == 0 { &mut t.outputs } else { &mut t.inputs };
                    if let Some(r) = r.get_mut(k) {
                        r.extend(vec![F::one(); 70]);
                        alts.push((format!("{} {} +70", if which == 0 { "output" } else { "input" }, k), t));
                    }
                }
            }
        }
        let mut t = st.clone();
        t.outputs.pop();
        alts.push(("copy of outputs dropped".into(), t));
        let mut t = st.clone();
        t.inputs.pop();
        alts.push(("copy of inputs dropped".into(), t));
        let mut t = st.clone();
        if let Some(x) = t.outputs.last().cloned() {
            t.outputs.push(x.iter().map(|v| *v + F::one()).collect());
            alts.push(("copy of outputs added".into(), t));
        }
        let mut t = st.clone();
        if let Some(x) = t.inputs.last().cloned() {
            t.inputs.push(x.iter().map(|v| *v + F::one()).collect());
            alts.push(("copy of inputs added".into(), t));
        }
        for (w, t) in alts {
            ctx.step(1);
            ctx.trace(1);
            ctx.state(&(c.c.clone(), w.as_str(), t.show()));
            let v = s.verify(&c.c, &b, &t);
            note(&v, "statement-reshaped", &|| format!("{}: {} -> {}", c.show(), w, v.show()));
        }
        let mut ms: Vec<(&str, String, Vec<u8>)> = mutations(&b, o.max_tamper).into_iter().map(|(w, m)| ("tampered-proof", w, m)).collect();
        match Sch::parse(s.schema()).decode(&b) {
            Some(t) => ms.extend(t.restructured().into_iter().map(|(w, t)| ("restructured-proof", w, t.encode()))),
            None => ctx.count("proof does not match its schema", 1),
        }
        for (kind, what, m) in ms {
            let m2 = match guard(|| s.parse(&m)) {
                Ok(Some(x)) => x,
                Ok(None) => {
                    ctx.count("mutation unparsable", 1);
                    continue;
                }
                Err(e) => {
                    note(&Verdict::Crash(e), "decoder", &|| format!("{}: {}", c.show(), what));
                    continue;
                }
            };
            if m2 == b {
                ctx.count("mutation decodes to the same proof", 1);
                continue;
            }
            ctx.step(1);
            ctx.trace(1);
            ctx.state(&(c.c.clone(), what.as_str()));
            let v = s.verify(&c.c, &m2, &st);
            note(&v, kind, &|| format!("{}: {} -> {}", c.show(), what, v.show()));
        }
    });
}
/// The honest prover of one circuit with the identity of another, over all ordered pairs.
pub fn l_foreign<F: Field, S: LScheme<F>>(ctx: &Ctx, s: &S, cases: &[LCase<F>]) {
    let jobs: Vec<(usize, usize)> = (0..cases.len()).flat_map(|i| (0..cases.len()).map(move |j| (i, j))).filter(|(i, j)| i != j).collect();
    par_for(&jobs, |_, (i, j)| {
        let (a, b) = (&cases[*i], &cases[*j]);
        if a.c.na != b.c.na || a.c.ni != b.c.ni || a.c.bits() != b.c.bits() || a.aux.len() != b.aux.len() {
            return;
        }
        let same = a.aux.iter().zip(&a.inputs).all(|(w, x)| b.c.eval(w, x) == a.c.eval(w, x));
        if same {
            return;
        }
        ctx.step(2);
        let (p, st) = match s.prove(a, &b.c, 7) {
            Ok(x) => x,
            Err(_) => {
                ctx.count("prover refused", 1);
                return;
            }
        };
        ctx.trace(1);
        ctx.state(&("foreign", *i, *j));
        let v = s.verify(&b.c, &p, &st);
        ctx.check(!v.acc(), "proof-accepted-under-another-circuit", || format!("{} accepted as {} with {}", a.show(), b.c.show(), st.show()));
    });
    let _ = fs::<F>;
}

/// circuits whose transcripts are tabulated: 0 few, 1 some, 2 many
pub fn fs_circuits(level: usize) -> Vec<Lc> {
    let all = patterned(&[(1, 1), (2, 3)], &[1, 3], 2, 1);
    match level {
        0 => all.into_iter().take(4).collect(),
        1 => all,
        _ => {
            let mut v = all;
            for c in patterned(&[(1, 1), (2, 2), (3, 4)], &[1, 2, 5], 3, 1) {
                if !v.iter().any(|d| d.show() == c.show()) {
                    v.push(c);
                }
            }
            v
        }
    }
}

/// circuits of three to six layers
pub fn deep() -> Vec<Lc> {
    let ws: &[&[usize]] = &[&[2, 1, 2], &[1, 2, 1, 3], &[3, 2, 2, 1, 2], &[1, 1, 2, 1, 1, 2]];
    let mut v = vec![];
    for (k, ws) in ws.iter().enumerate() {
        let (na, ni): (usize, usize) = [(1, 1), (2, 1), (1, 2), (2, 2)][k];
        let mut n = 2 * na.max(ni).next_power_of_two();
        let mut layers = vec![];
        for w in ws.iter() {
            layers.push(pattern(*w, n, k + layers.len()));
            n = *w;
        }
        v.push(Lc { na, ni, layers });
    }
    v
}
