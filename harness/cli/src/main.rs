//! T01: histories of commands on the real binaries in scratch directories, against a model of the
//! working directory; alterations of the files between the commands; the example circuits.
use ark_bls12_381::{Bls12_381, Fr};
use ark_serialize::*;
use mccore::circuit::Recorder;
use mccore::toy::FBig;
use mccore::uniq::{Det, Sys};
use mccore::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem};

#[allow(dead_code)]
#[path = "/repo/cli/src/circuits/mod.rs"]
mod circuits;
use circuits::{hash::Hash, mini::Mini, CliCircuit, Publics};

fn main() {
    mccore::run_main(&[("T01", t01)])
}
static NEXT: AtomicUsize = AtomicUsize::new(0);
/// a scratch directory, removed when dropped
struct Dir(PathBuf);
impl Dir {
    fn new() -> Dir {
        let p = std::env::temp_dir().join(format!("mc-cli-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).unwrap();
        Dir(p)
    }
    fn copy(&self) -> Dir {
        let d = Dir::new();
        for (n, b) in self.files() {
            let q = d.0.join(&n);
            std::fs::create_dir_all(q.parent().unwrap()).unwrap();
            std::fs::write(q, b).unwrap();
        }
        d
    }
    fn files(&self) -> BTreeMap<String, Vec<u8>> {
        fn walk(base: &Path, p: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
            for e in std::fs::read_dir(p).unwrap() {
                let q = e.unwrap().path();
                if q.is_dir() {
                    walk(base, &q, out);
                } else {
                    out.insert(q.strip_prefix(base).unwrap().to_str().unwrap().to_string(), std::fs::read(&q).unwrap());
                }
            }
        }
        let mut m = BTreeMap::new();
        walk(&self.0, &self.0, &mut m);
        m
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// exit status 0, standard output
fn run(ctx: &Ctx, d: &Dir, bin: &str, args: &[&str]) -> (bool, String) {
    ctx.step(1);
    ctx.count(bin, 1);
    let tool = PathBuf::from(std::env::var("MC_TOOL").expect("MC_TOOL: directory of the tool's binaries"));
    let mut c = Command::new(tool.join(bin));
    c.args(args).current_dir(&d.0).stdin(Stdio::null()).env("RUST_BACKTRACE", "0");
    let o = c.output().expect("the tool's binary starts");
    (o.status.success(), String::from_utf8_lossy(&o.stdout).to_string())
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
struct Pair {
    scheme: &'static str,
    circuit: &'static str,
}
const CURVE: &str = "bls12_381";
impl Pair {
    fn setup_needed(&self) -> bool {
        self.scheme != "bulletproofs"
    }
    fn file(&self) -> String {
        format!("proof_files/{}-{}-{}.proof.json", self.scheme, CURVE, self.circuit)
    }
    fn setup(&self, ctx: &Ctx, d: &Dir) -> bool {
        run(ctx, d, "setup", &[self.scheme, CURVE, self.circuit]).0
    }
    fn prove(&self, ctx: &Ctx, d: &Dir, args: &[&str]) -> bool {
        let mut a = vec![self.scheme, CURVE, self.circuit];
        a.extend(args);
        run(ctx, d, "zkp-prove", &a).0
    }
    /// "true" only when the tool says so and ends well
    fn verify(&self, ctx: &Ctx, d: &Dir) -> &'static str {
        verify(ctx, d, &self.file())
    }
}
fn verify(ctx: &Ctx, d: &Dir, file: &str) -> &'static str {
    let (ok, out) = run(ctx, d, "zkp-verify", &[file]);
    match (ok, out.contains("Verify is: true"), out.contains("Verify is: false")) {
        (true, true, false) => "true",
        (true, false, true) => "false",
        (false, true, _) => "true and an error",
        (true, ..) => "nothing",
        _ => "an error",
    }
}
/// what the last successful `prove` left
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
struct Left {
    args: Vec<&'static str>,
    valid: bool,
    gen: usize,
}
#[derive(Clone, Default, Debug)]
struct Model {
    gen: BTreeMap<Pair, usize>,
    left: BTreeMap<Pair, Left>,
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Setup(Pair),
    Prove(Pair, &'static [&'static str], bool),
}
impl Op {
    fn pair(&self) -> Pair {
        match self {
            Op::Setup(p) | Op::Prove(p, ..) => *p,
        }
    }
    fn show(&self) -> String {
        match self {
            Op::Setup(p) => format!("setup {} {}", p.scheme, p.circuit),
            Op::Prove(p, a, _) => format!("prove {} {} {}", p.scheme, p.circuit, a.join(" ")),
        }
    }
}
fn public_of(p: Pair, args: &[&str]) -> String {
    if p.circuit == "mini" {
        args[2].to_string()
    } else {
        let mut b = vec![];
        zkp_gadgets::hashes::mimc::hash::<Fr>(args[0].as_bytes()).serialize(&mut b).unwrap();
        b.iter().map(|x| format!("{:02x}", x)).collect()
    }
}
/// apply `op` in `d`, check it against the model, then verify every proof there is
fn apply(ctx: &Ctx, d: &Dir, m: &mut Model, op: Op, hist: &str) {
    let before = d.files();
    let p = op.pair();
    let bad = |key: &str, what: String| ctx.violate(&format!("{} {} {}", p.scheme, p.circuit, key), || format!("{}: {}", hist, what));
    let mine = |f: &str| f.contains(&format!("{}-{}-{}.", p.scheme, CURVE, p.circuit));
    match op {
        Op::Setup(_) => {
            let ok = p.setup(ctx, d);
            if ok != p.setup_needed() {
                bad("setup", format!("ends with success={}", ok));
            }
            for (f, b) in d.files() {
                if before.get(&f) != Some(&b) && !(mine(&f) && f.starts_with("setup_files/") && ok) {
                    bad("setup touches other files", f);
                }
            }
            if ok {
                *m.gen.entry(p).or_insert(0) += 1;
            }
        }
        Op::Prove(_, args, valid) => {
            let ok = p.prove(ctx, d, args);
            let can = !p.setup_needed() || m.gen.contains_key(&p);
            if valid && ok != can {
                bad("prove", format!("ends with success={}", ok));
            }
            if !can && ok {
                bad("prove without setup", "succeeds".into());
            }
            for (f, b) in d.files() {
                if before.get(&f) != Some(&b) && !(f == p.file() && ok) {
                    bad("prove touches other files", f);
                }
            }
            if ok {
                let j: serde_json::Value = match std::fs::read(d.0.join(p.file())).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
                    Some(j) => j,
                    None => return bad("proof file", "missing or unreadable".into()),
                };
                let want = public_of(p, args);
                if j["params"][0].as_str() != Some(&want) || j["circuit"] != p.circuit || j["scheme"] != p.scheme || j["curve"] != CURVE {
                    bad("proof file names another statement", format!("{} {} {} {} instead of {}", j["scheme"], j["curve"], j["circuit"], j["params"], want));
                }
                m.left.insert(p, Left { args: args.to_vec(), valid, gen: m.gen.get(&p).cloned().unwrap_or(0) });
            }
        }
    }
    let now = d.files();
    for f in before.keys() {
        if !now.contains_key(f) {
            bad("a file disappears", f.clone());
        }
    }
    for (q, l) in &m.left {
        let right = l.valid && m.gen.get(q).cloned().unwrap_or(0) == l.gen;
        let got = q.verify(ctx, d);
        ctx.trace(1);
        ctx.count(if right { "valid proofs verified" } else { "invalid proofs verified" }, 1);
        if right && got != "true" {
            ctx.violate(&format!("{} {} valid proof not accepted", q.scheme, q.circuit), || format!("{}: {}", hist, got));
        }
        if !right && got != "false" && got != "an error" {
            ctx.violate(&format!("{} {} {} accepted", q.scheme, q.circuit, if l.valid { "proof of another setup" } else { "false statement" }), || format!("{}: {:?} gives {}", hist, l, got));
        }
    }
    if d.files() != now {
        bad("verify changes files", String::new());
    }
}
fn explore_from(ctx: &Ctx, d: Dir, m: Model, ops: &[Op], depth: usize, hist: String) {
    ctx.state(&format!("{:?}", m));
    if depth == 0 {
        return;
    }
    for op in ops {
        let e = d.copy();
        let mut n = m.clone();
        let h = format!("{}; {}", hist, op.show());
        apply(ctx, &e, &mut n, *op, &h);
        explore_from(ctx, e, n, ops, depth - 1, h);
    }
}
fn histories(ctx: &Ctx, ops: &[Op], depth: usize) {
    // the first two commands are spread over the cores
    let heads: Vec<(Op, Op)> = ops.iter().flat_map(|a| ops.iter().map(move |b| (*a, *b))).collect();
    par_for(&heads, |i, (a, b)| {
        let d = Dir::new();
        let mut m = Model::default();
        if i % ops.len() == 0 || depth >= 2 {
            apply(ctx, &d, &mut m, *a, &a.show());
        }
        if depth >= 2 {
            let h = format!("{}; {}", a.show(), b.show());
            apply(ctx, &d, &mut m, *b, &h);
            explore_from(ctx, d, m, ops, depth - 2, h);
        }
    });
}
/// the bytes as the library would write back what it reads from them: on real curves the bytes
/// next to the flag of the point at infinity are ignored
fn meaning(p: Pair, b: &[u8]) -> Option<Vec<u8>> {
    fn again<T: CanonicalSerialize + CanonicalDeserialize>(b: &[u8]) -> Option<Vec<u8>> {
        let t = guard(|| T::deserialize(b)).ok()?.ok()?;
        let mut v = vec![];
        t.serialize(&mut v).ok()?;
        Some(v)
    }
    type E = Bls12_381;
    match p.scheme {
        "groth16" => again::<zkp_groth16::Proof<E>>(b),
        "spartan_snark" => again::<zkp_spartan::snark::Proof<E>>(b),
        "spartan_nizk" => again::<zkp_spartan::nizk::Proof<E>>(b),
        _ => again::<(zkp_bulletproofs::Generators<E>, zkp_bulletproofs::R1csCircuit<E>, zkp_bulletproofs::Proof<E>)>(b),
    }
}
/// alterations of a proof file that change its meaning
fn alterations(ctx: &Ctx, p: Pair, args: &'static [&'static str], others: &[Pair], stride: usize) {
    let d = Dir::new();
    if p.setup_needed() {
        p.setup(ctx, &d);
    }
    // other schemes and circuits are set up as well, so that nothing fails for want of files
    for q in others {
        if q.setup_needed() && *q != p {
            q.setup(ctx, &d);
        }
    }
    if !p.prove(ctx, &d, args) || p.verify(ctx, &d) != "true" {
        ctx.violate(&format!("{} {} plain run", p.scheme, p.circuit), || "setup, prove, verify".into());
        return;
    }
    let j: serde_json::Value = serde_json::from_slice(&std::fs::read(d.0.join(p.file())).unwrap()).unwrap();
    let hex = j["proof"].as_str().unwrap().to_string();
    let mut alts: Vec<(String, Option<serde_json::Value>)> = vec![("empty file".into(), None)];
    let mut with = |what: String, f: &dyn Fn(&mut serde_json::Value)| {
        let mut k = j.clone();
        f(&mut k);
        alts.push((what, Some(k)));
    };
    for f in ["circuit", "scheme", "curve", "params", "proof"] {
        with(format!("{} missing", f), &|k| {
            k.as_object_mut().unwrap().remove(f);
        });
        with(format!("{} null", f), &|k| k[f] = serde_json::Value::Null);
        with(format!("{} empty", f), &|k| k[f] = if f == "params" { serde_json::json!([]) } else { "".into() });
    }
    for q in others.iter().filter(|q| **q != p) {
        with(format!("{} {} instead", q.scheme, q.circuit), &|k| {
            k["scheme"] = q.scheme.into();
            k["circuit"] = q.circuit.into();
        });
    }
    for c in ["bn254", "BLS12_381", "bls12_377"] {
        with(format!("curve {}", c), &|k| k["curve"] = c.into());
    }
    if p.circuit == "mini" {
        let z: u64 = args[2].parse().unwrap();
        for x in [z + 1, z.wrapping_sub(1), 0, z * 2, u64::MAX, z + (1 << 32), z + (1 << 63)] {
            if x != z {
                with(format!("public {}", x), &|k| k["params"] = serde_json::json!([x.to_string()]));
            }
        }
        for x in ["x", "-1", "1.5", "18446744073709551616"] {
            with(format!("public {}", x), &|k| k["params"] = serde_json::json!([x]));
        }
    } else {
        let h = j["params"][0].as_str().unwrap().to_string();
        for i in (0..h.len()).step_by(if stride > 1 { 9 } else { 1 }) {
            let mut b: Vec<u8> = h.clone().into_bytes();
            b[i] = if b[i] == b'0' { b'1' } else { b'0' };
            let s = String::from_utf8(b).unwrap();
            with(format!("public digit {}", i), &|k| k["params"] = serde_json::json!([s.clone()]));
        }
        for s in ["00".repeat(32), "ff".repeat(32), h[..62].to_string(), public_of(p, &["other"])] {
            with(format!("public {}", s), &|k| k["params"] = serde_json::json!([s.clone()]));
        }
    }
    let n = hex.len() / 2;
    let whole: Vec<u8> = (0..n).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    for i in 0..n {
        if i % stride == 0 || i < 4 || i + 4 > n {
            let mut b = u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap();
            b ^= 1;
            let s = format!("{}{:02x}{}", &hex[..2 * i], b, &hex[2 * i + 2..]);
            let mut raw = whole.clone();
            raw[i] = b;
            if meaning(p, &raw).as_ref() != Some(&whole) {
                with(format!("proof byte {} of {}", i, n), &|k| k["proof"] = s.clone().into());
            } else {
                ctx.count("altered bytes without meaning", 1);
            }
            let s = hex[..2 * i].to_string();
            with(format!("proof cut to {} of {} bytes", i, n), &|k| k["proof"] = s.clone().into());
        }
    }
    for s in [hex[1..].to_string(), hex[..hex.len() - 1].to_string(), format!("zz{}", &hex[2..]), "00".repeat(n), "ff".repeat(n)] {
        with("mangled proof".into(), &|k| k["proof"] = s.clone().into());
    }
    ctx.count("file alterations", alts.len() as u64);
    par_for(&alts, |i, (what, k)| {
        let name = format!("proof_files/alt{}.json", i);
        std::fs::write(d.0.join(&name), k.as_ref().map(|k| k.to_string()).unwrap_or_default()).unwrap();
        let got = verify(ctx, &d, &name);
        let _ = std::fs::remove_file(d.0.join(&name));
        ctx.trace(1);
        let kind: String = what.chars().filter(|c| !c.is_ascii_digit()).collect();
        ctx.check(got == "false" || got == "an error", &format!("{} {} altered proof file accepted", p.scheme, p.circuit), || format!("{} ({}): {}", what, kind, got));
    });
    let got = p.verify(ctx, &d);
    ctx.check(got == "true", &format!("{} {} valid proof not accepted", p.scheme, p.circuit), || format!("after looking at altered files: {}", got));
    if p.scheme == "groth16" {
        // another key, or a damaged one
        let vk = d.0.join(format!("setup_files/groth16-{}-{}.vk", CURVE, p.circuit));
        let good = std::fs::read(&vk).unwrap();
        let mut keys: Vec<(String, Vec<u8>)> = vec![("empty".into(), vec![]), ("cut".into(), good[..good.len() / 2].to_vec())];
        for q in others.iter().filter(|q| q.scheme == "groth16" && **q != p) {
            keys.push(("of another circuit".into(), std::fs::read(d.0.join(format!("setup_files/groth16-{}-{}.vk", CURVE, q.circuit))).unwrap()));
        }
        for i in (0..good.len()).step_by(stride) {
            let mut b = good.clone();
            b[i] ^= 1;
            keys.push((format!("byte {}", i), b));
        }
        for (what, b) in keys {
            std::fs::write(&vk, b).unwrap();
            let got = p.verify(ctx, &d);
            ctx.trace(1);
            ctx.check(got == "false" || got == "an error", "groth16 proof accepted under another key", || format!("{}: {}", what, got));
        }
    }
}
/// calls the tool has to refuse, leaving nothing behind
fn misuse(ctx: &Ctx) {
    let d = Dir::new();
    for p in [Pair { scheme: "groth16", circuit: "mini" }, Pair { scheme: "spartan_nizk", circuit: "mini" }] {
        p.setup(ctx, &d);
    }
    let before = d.files();
    let mut calls: Vec<(&str, Vec<&str>)> = vec![];
    for s in ["marlin", "Groth16", "", "../x", "clinkv2"] {
        calls.push(("setup", vec![s, CURVE, "mini"]));
        calls.push(("zkp-prove", vec![s, CURVE, "mini", "3", "4", "18"]));
    }
    for s in ["groth16", "bulletproofs", "spartan_nizk", "spartan_snark"] {
        for c in ["", "Mini", "minihash", "../mini"] {
            calls.push(("setup", vec![s, CURVE, c]));
            calls.push(("zkp-prove", vec![s, CURVE, c, "3", "4", "18"]));
        }
        for k in ["bn_256", "", "BLS12_381"] {
            calls.push(("setup", vec![s, k, "mini"]));
            calls.push(("zkp-prove", vec![s, k, "mini", "3", "4", "18"]));
        }
        for a in [vec![], vec!["3"], vec!["3", "4"], vec!["3", "4", "x"], vec!["-3", "4", "18"], vec!["3", "", "18"], vec!["3", "4", "18446744073709551616"], vec!["3.0", "4", "18"]] {
            let mut v = vec![s, CURVE, "mini"];
            v.extend(a);
            calls.push(("zkp-prove", v));
        }
        calls.push(("zkp-prove", vec![s, CURVE, "hash"]));
        calls.push(("zkp-prove", vec![s, CURVE]));
        calls.push(("zkp-prove", vec![s]));
    }
    for b in ["setup", "zkp-prove", "zkp-verify"] {
        calls.push((b, vec![]));
    }
    calls.push(("zkp-verify", vec!["nothing.json"]));
    calls.push(("zkp-verify", vec!["."]));
    for (b, a) in calls {
        let (ok, out) = run(ctx, &d, b, &a);
        ctx.trace(1);
        ctx.check(!ok && !out.contains("Verify is"), "misuse accepted", || format!("{} {}", b, a.join(" ")));
        ctx.check(d.files() == before, "misuse leaves files", || format!("{} {}", b, a.join(" ")));
    }
}
/// all small arguments: the verdict is whether x * (y + 2) = z
fn statements(ctx: &Ctx, p: Pair, top: u64) {
    let mut all: Vec<[u64; 3]> = vec![];
    for x in 0..top {
        for y in 0..top {
            let z = x * (y + 2);
            for z in [Some(z), Some(z + 1), z.checked_sub(1), Some(0), Some(x), Some(x * y)].iter().flatten() {
                if !all.contains(&[x, y, *z]) {
                    all.push([x, y, *z]);
                }
            }
        }
    }
    for t in [[1, u64::MAX - 2, u64::MAX], [u64::MAX, 0, u64::MAX], [u64::MAX, 0, u64::MAX - 1], [1 << 63, 0, 0], [1 << 32, (1 << 32) - 2, 0], [1, u64::MAX, 1], [0, u64::MAX, 0], [1 << 31, (1 << 31) - 2, 1 << 62]] {
        all.push(t);
    }
    let d = Dir::new();
    if p.setup_needed() {
        p.setup(ctx, &d);
    }
    par_for(&all, |_, t| {
        let e = d.copy();
        let s: Vec<String> = t.iter().map(|x| x.to_string()).collect();
        let a: Vec<&str> = s.iter().map(|x| &x[..]).collect();
        let right = t[0] as u128 * (t[1] as u128 + 2) == t[2] as u128;
        let ok = p.prove(ctx, &e, &a);
        let got = if ok { p.verify(ctx, &e) } else { "an error" };
        ctx.trace(1);
        ctx.state(&(p, t));
        ctx.check(if right { got == "true" } else { got == "false" || got == "an error" }, &format!("{} mini {}", p.scheme, if right { "valid proof not accepted" } else { "false statement accepted" }), || format!("x y z = {:?}: {}", t, got));
    });
}
fn messages(ctx: &Ctx, p: Pair, lens: &[usize]) {
    let d = Dir::new();
    if p.setup_needed() {
        p.setup(ctx, &d);
    }
    let mut ms: Vec<String> = lens.iter().map(|n| (0..*n).map(|i| (b'!' + (i * 7 % 90) as u8) as char).collect()).collect();
    ms.push("\u{e9}\u{4e16}".into());
    ms.push(" ".into());
    par_for(&ms, |_, m| {
        let e = d.copy();
        let ok = p.prove(ctx, &e, &[m]);
        let got = if ok { p.verify(ctx, &e) } else { "an error" };
        ctx.trace(1);
        ctx.state(&(p, m));
        let j: serde_json::Value = std::fs::read(e.0.join(p.file())).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or_default();
        ctx.check(got == "true", &format!("{} hash valid proof not accepted", p.scheme), || format!("{:?}: {}", m, got));
        let want = public_of(p, &[m]);
        ctx.check(j["params"][0].as_str() == Some(&want), &format!("{} hash proof file names another image", p.scheme), || format!("{:?}: {} / {}", m, j["params"], want));
    });
}
/// a proof file made without the tool: nothing of the relation holds
fn forged_relation(ctx: &Ctx) {
    struct Free(Fr);
    impl ConstraintSynthesizer<Fr> for Free {
        fn generate_constraints<CS: ConstraintSystem<Fr>>(self, cs: &mut CS) -> Result<(), zkp_r1cs::SynthesisError> {
            let v = cs.alloc_input(|| "z", || Ok(self.0))?;
            cs.enforce(|| "z = z", |lc| lc + v, |lc| lc + CS::one(), |lc| lc + v);
            Ok(())
        }
    }
    for (circuit, public) in [("mini", "12345".to_string()), ("hash", "01".repeat(31) + "00")] {
        let d = Dir::new();
        let z = if circuit == "mini" { Fr::from(12345u64) } else { Fr::deserialize(&[&[1u8; 31][..], &[0]].concat()[..]).unwrap() };
        let (g, r, p) = match flat(guard(|| zkp_bulletproofs::create_random_proof::<Bls12_381, _, _>(Free(z), &mut Coins::seeded(1)))) {
            Ok(x) => x,
            Err(e) => {
                ctx.count(&format!("no forgery: {}", e), 1);
                continue;
            }
        };
        let mut b = vec![];
        g.serialize(&mut b).unwrap();
        r.serialize(&mut b).unwrap();
        p.serialize(&mut b).unwrap();
        let hex: String = b.iter().map(|x| format!("{:02x}", x)).collect();
        std::fs::write(d.0.join("f.json"), serde_json::json!({"circuit": circuit, "scheme": "bulletproofs", "curve": CURVE, "params": [public], "proof": hex}).to_string()).unwrap();
        let got = verify(ctx, &d, "f.json");
        ctx.trace(1);
        ctx.check(got == "false" || got == "an error", &format!("bulletproofs {}: proof of another relation accepted", circuit), || format!("proof of \"z = z\" verifies as {} {}: {}", circuit, public, got));
    }
}
/// the example circuits say what the tool says they say
fn example_circuits(ctx: &Ctx) {
    fn shape<F: ark_ff::PrimeField, C: ConstraintSynthesizer<F>>(c: C) -> Recorder<F> {
        let mut r = Recorder::for_setup();
        c.generate_constraints(&mut r).unwrap();
        r
    }
    fn full<F: ark_ff::PrimeField, C: ConstraintSynthesizer<F>>(c: C) -> Recorder<F> {
        let mut r = Recorder::new();
        c.generate_constraints(&mut r).unwrap();
        r
    }
    type F = FBig;
    let m = shape(Mini::<F>::power_off());
    for t in tuples(&(0..ctx.b(6u64, 12)).collect::<Vec<_>>(), 2) {
        for z in 0..ctx.b(40u64, 170) {
            ctx.step(1);
            let a: Vec<String> = [t[0], t[1], z].iter().map(|x| x.to_string()).collect();
            let (c, p) = Mini::<F>::power_on(&a);
            let r = full(c);
            let right = t[0] * (t[1] + 2) == z;
            ctx.check(r.canonical() == m.canonical() && r.inputs.len() == m.inputs.len() && r.aux.len() == m.aux.len(), "mini circuit depends on its arguments", || format!("{:?}", a));
            ctx.check(r.inputs[1..] == [F::from(z)] && matches!(p, Publics::Mini(q) if q == z), "mini circuit's public input", || format!("{:?}", a));
            ctx.check(r.sat() == right, "mini circuit", || format!("{:?} satisfied: {}", a, r.sat()));
        }
    }
    fn hashes<F: ark_ff::PrimeField>(ctx: &Ctx, lens: &[usize], what: &str) {
        let m = shape(Hash::<F>::power_off());
        par_for(lens, |_, n| {
            let s: String = (0..*n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
            let (c, p) = Hash::<F>::power_on(&[s.clone()]);
            let r = full(c);
            ctx.trace(1);
            ctx.state(&(what, n));
            let image = zkp_gadgets::hashes::mimc::hash::<F>(s.as_bytes());
            ctx.check(r.canonical() == m.canonical() && r.inputs.len() == m.inputs.len() && r.aux.len() == m.aux.len(), "hash circuit depends on its argument", || s.clone());
            ctx.check(r.inputs[1..] == [image] && matches!(p, Publics::Hash(q) if q == image), "hash circuit's public input", || s.clone());
            ctx.check(r.sat(), "hash circuit unsatisfied", || s.clone());
            // the preimage determines the image
            let (sys, z) = (Sys::of(&r), Sys::full(&r));
            // preimage: whatever the first constraint's inputs are made of is found by trying all
            // pairs of leading witnesses
            let mut nodes = 0;
            match sys.determined(&z, &[sys.ni, sys.ni + 1], &[1], &mut nodes) {
                Det::Determined => ctx.count("images determined by the preimage", 1),
                Det::Second(_) => ctx.violate("hash circuit does not bind its image", || format!("{:?} over {}: another image satisfies the circuit with the same preimage", s, what)),
                Det::Undecided(_) => ctx.violate("hash circuit does not bind its image", || format!("{:?} over {}: image not determined by the preimage", s, what)),
            }
            for v in 1..sys.n {
                ctx.step(1);
                let mut y = z.clone();
                y[v] += F::one();
                ctx.check(!sys.sat(&y), "hash circuit has a free variable", || format!("{:?} over {}: variable {}", s, what, v));
            }
        });
    }
    hashes::<FBig>(ctx, &(0..ctx.b(20, 70)).collect::<Vec<_>>(), "toy field");
    hashes::<Fr>(ctx, &if ctx.thorough() { (0..130).collect::<Vec<_>>() } else { vec![0, 1, 31, 32, 33, 64] }, "bls12-381");
}
fn t01(ctx: &Ctx) {
    let p = |scheme, circuit| Pair { scheme, circuit };
    let gm = p("groth16", "mini");
    let bm = p("bulletproofs", "mini");
    let sm = p("spartan_snark", "mini");
    let nm = p("spartan_nizk", "mini");
    let gh = p("groth16", "hash");
    let nh = p("spartan_nizk", "hash");
    let bh = p("bulletproofs", "hash");
    let sh = p("spartan_snark", "hash");
    const A: &[&str] = &["3", "4", "18"];
    const B: &[&str] = &["5", "0", "10"];
    const X: &[&str] = &["3", "4", "19"];
    const M: &[&str] = &["iamsecret"];
    const N: &[&str] = &["another message that is longer than one word"];
    ctx.assume("the real BLS12-381; setup and prover draw from the system's randomness: verdicts, not bytes, are compared");
    example_circuits(ctx);
    misuse(ctx);
    let d = ctx.b(3, 4);
    for q in [gm, nm, bm, sm] {
        histories(ctx, &[Op::Setup(q), Op::Prove(q, A, true), Op::Prove(q, B, true), Op::Prove(q, X, false)], if q == sm { ctx.b(2, 4) } else { d });
    }
    for q in if ctx.thorough() { vec![gh, nh] } else { vec![nh] } {
        histories(ctx, &[Op::Setup(q), Op::Prove(q, M, true), Op::Prove(q, N, true)], ctx.b(2, 4));
    }
    let pairs: Vec<(Pair, Pair)> = if ctx.thorough() { vec![(gm, nm), (gm, gh), (nm, nh), (nm, sm), (bm, nm), (gm, bm), (gh, nh)] } else { vec![(gm, nm), (nm, sm)] };
    let args = |q: Pair| if q.circuit == "mini" { A } else { M };
    for (a, b) in &pairs {
        histories(ctx, &[Op::Setup(*a), Op::Prove(*a, args(*a), true), Op::Setup(*b), Op::Prove(*b, args(*b), true)], ctx.b(3, 4));
    }
    ctx.bound(format!("histories of up to {} commands per scheme and circuit over setup, two valid proofs and a false one, and of up to {} commands over two schemes or circuits ({} combinations); every proof file there verified after every command", d, ctx.b(3, 4), pairs.len()));
    statements(ctx, gm, ctx.b(4, 8));
    statements(ctx, nm, ctx.b(4, 8));
    statements(ctx, bm, ctx.b(2, 5));
    statements(ctx, sm, ctx.b(2, 4));
    let all: Vec<usize> = (0..100).collect();
    messages(ctx, nh, if ctx.thorough() { &all } else { &[0, 1, 31, 32, 33, 64, 65] });
    messages(ctx, gh, if ctx.thorough() { &[0, 1, 2, 31, 32, 33, 63, 64, 65, 96, 97] } else { &[1, 33] });
    let others = [gm, nm, bm, sm, gh, nh];
    alterations(ctx, gm, A, &others, ctx.b(2, 1));
    alterations(ctx, nm, A, &others, ctx.b(64, 4));
    alterations(ctx, bm, A, &others, ctx.b(200, 8));
    alterations(ctx, sm, A, &others, ctx.b(600, 24));
    alterations(ctx, gh, M, &others, ctx.b(8, 1));
    alterations(ctx, nh, M, &others, ctx.b(400, 16));
    if ctx.thorough() {
        alterations(ctx, sh, M, &others, 2000);
        // hundreds of megabytes: once
        let d = Dir::new();
        ctx.check(bh.prove(ctx, &d, M) && bh.verify(ctx, &d) == "true", "bulletproofs hash valid proof not accepted", || "prove, verify".into());
    }
    forged_relation(ctx);
}
