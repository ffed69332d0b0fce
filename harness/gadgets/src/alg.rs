//! D04 algebraic hash circuits, D05 native algebraic hashes.
use crate::words::verdict;
use ark_ff::{BigInteger, FpParameters, PrimeField};
use mccore::toy::*;
use mccore::*;
use std::collections::BTreeMap;
use zkp_gadgets::hashes::abstract_hash::{AbstractHash, AbstractHashOutput};
use zkp_gadgets::hashes::{mimc, poseidon, rescue};
use zkp_r1cs::{ConstraintSystem, SynthesisError};

type Fr = ark_bls12_381::Fr;
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum H {
    Mimc,
    Poseidon,
    Rescue,
}
pub const HS: [H; 3] = [H::Mimc, H::Poseidon, H::Rescue];
pub fn native<F: PrimeField>(h: H, b: &[u8]) -> F {
    match h {
        H::Mimc => mimc::hash(b),
        H::Poseidon => poseidon::hash(b),
        H::Rescue => rescue::hash(b),
    }
}
fn circuit<F: PrimeField>(h: H, rec: &mut Recorder<F>, b: &[u8]) -> Result<Option<F>, SynthesisError> {
    match h {
        H::Mimc => mimc::mimc(rec.ns(|| "h"), Some(b)),
        H::Poseidon => poseidon::poseidon(rec.ns(|| "h"), b).map(Some),
        H::Rescue => rescue::rescue(rec.ns(|| "h"), b).map(Some),
    }
}
fn limb_bytes<F: PrimeField>() -> usize {
    <F::BigInt as BigInteger>::NUM_LIMBS * 8
}
fn mod_bits<F: PrimeField>() -> u32 {
    <F::Params as FpParameters>::MODULUS_BITS
}
/// messages whose full-width words are all below the modulus
fn in_range<F: PrimeField>(m: &[u8]) -> bool {
    m.chunks(limb_bytes::<F>()).all(|c| {
        let mut w = c.to_vec();
        w.resize(limb_bytes::<F>(), 0);
        let modulus = <F::Params as FpParameters>::MODULUS;
        let mut mb = vec![];
        for l in modulus.as_ref() {
            mb.extend(l.to_le_bytes());
        }
        w.iter().rev().cmp(mb.iter().rev()) == std::cmp::Ordering::Less
    })
}
fn message<F: PrimeField>(len: usize, content: usize) -> Vec<u8> {
    let n = limb_bytes::<F>();
    let top = (mod_bits::<F>() as usize - 1) / 8; // bytes that are always in range
    (0..len)
        .map(|i| {
            if i % n >= top {
                0
            } else {
                match content {
                    0 => 0,
                    1 => (i * 29 + 7) as u8,
                    _ => 255 - (i % 7) as u8,
                }
            }
        })
        .collect()
}
fn d04_msgs<F: PrimeField>(ctx: &Ctx, fname: &str, lens: &[usize]) {
    let mut jobs = vec![];
    for h in HS {
        for l in lens {
            for c in 0..3 {
                jobs.push((h, *l, c));
            }
        }
    }
    par_for(&jobs, |_, (h, len, content)| {
        let m = message::<F>(*len, *content);
        let what = || format!("{:?} over {} of {} bytes {:02x?}", h, fname, len, &m[..m.len().min(6)]);
        ctx.step(1);
        ctx.state(&(fname, format!("{:?}", h), m.clone()));
        let mut rec = Recorder::<F>::new();
        let r = guard(|| (native::<F>(*h, &m), circuit::<F>(*h, &mut rec, &m)));
        let (nat, cir) = match r {
            Ok((n, Ok(c))) => (n, c),
            Ok((_, Err(e))) => {
                ctx.violate(&format!("refused {:?}", h), || format!("{}: {:?}", what(), e));
                return;
            }
            Err(e) => {
                ctx.violate(&format!("panic {:?}", h), || format!("{}: {}", what(), e));
                return;
            }
        };
        ctx.check(cir == Some(nat), &format!("returned-digest {:?}", h), || what());
        ctx.check(rec.sat(), &format!("honest-assignment {:?}", h), || format!("{}: constraint {:?}", what(), rec.first_unsat()));
        // the circuit's own output: the public input if it has one, otherwise the last variable
        let sys = Sys::of(&rec);
        let z = Sys::full(&rec);
        let out = if rec.inputs.len() > 1 { rec.inputs.len() - 1 } else { sys.n - 1 };
        if !ctx.check(z[out] == nat, &format!("circuit-output {:?}", h), || format!("{}: circuit output {} native digest {}", what(), fs(&z[out]), fs(&nat))) {
            return;
        }
        // preimage: chaining value and last word, the two variables allocated first
        let n = limb_bytes::<F>();
        let words = (m.len() + n - 1) / n;
        let xl = if words <= 1 { F::zero() } else { native::<F>(*h, &m[..(words - 1) * n]) };
        let mut lastw = m[words.saturating_sub(1) * n..].to_vec();
        lastw.resize(n, 0);
        let xr = word::<F>(&lastw);
        // (in whatever order), recognised by their values
        let pre: Vec<usize> = if z[sys.ni] == xl && z[sys.ni + 1] == xr || z[sys.ni] == xr && z[sys.ni + 1] == xl { vec![sys.ni, sys.ni + 1] } else { vec![] };
        if pre.is_empty() {
            ctx.count("preimage variables not recognised", 1);
            return;
        }
        verdict(ctx, &format!("{:?}", h), &rec, &pre, &[out], &what);
        if *content == 1 {
            // keys are made for any message of the length: the constraints do not depend on it
            for c in [0, 2] {
                let mut b = Recorder::<F>::for_setup();
                let r = guard(|| circuit::<F>(*h, &mut b, &message::<F>(*len, c)).map(|_| ()));
                ctx.check(matches!(r, Ok(Ok(()))) && b.canonical() == rec.canonical(), &format!("shape {:?}", h), || format!("{}: constraints depend on the message", what()));
            }
        }
        ctx.sample("message", || format!("{}: {} constraints", what(), rec.cons.len()));
        if *h == H::Mimc {
            let mut b = Recorder::<F>::for_setup();
            let r = guard(|| mimc::mimc::<F, _>(b.ns(|| "h"), None));
            ctx.check(matches!(r, Ok(Ok(None))) && b.canonical() == rec.canonical(), "shape Mimc", || "blank synthesis differs".into());
        }
    });
}
fn word<F: PrimeField>(b: &[u8]) -> F {
    let base = F::from(256u64);
    b.iter().rev().fold(F::zero(), |a, x| a * base + F::from(*x as u64))
}
/// every preimage (xl, xr) representable: determinism of the block circuit on all pairs of a small field
fn enforce_case<F: PrimeField>(ctx: &Ctx, fname: &str, h: H, params: &[F], exhaustive: bool) {
    let what = || format!("hash_enforce {:?} over {} of {}", h, fname, vs(params));
    let mut rec = Recorder::<F>::new();
    ctx.step(1);
    ctx.state(&(fname, format!("{:?}", h), vs(params)));
    let mut bytes = vec![];
    for p in params {
        p.write(&mut bytes).unwrap();
    }
    let nat = match guard(|| native::<F>(h, &bytes)) {
        Ok(n) => n,
        Err(e) => {
            ctx.violate(&format!("panic {:?}", h), || format!("{}: {}", what(), e));
            return;
        }
    };
    macro_rules! go {
        ($m:ident, $o:ident, $hh:ident) => {{
            guard(|| {
                let ps: Vec<$m::$o<F>> = params.iter().enumerate().map(|(i, p)| $m::$o::alloc(rec.ns(|| format!("p{}", i)), Some(*p)).unwrap()).collect();
                let refs: Vec<&$m::$o<F>> = ps.iter().collect();
                let pv: Vec<_> = ps.iter().map(|p| p.get_variables()[0]).collect();
                $m::$hh::<F>::hash_enforce(rec.ns(|| "h"), &refs).map(|o| (pv, o.get_value(), o.get_variables()))
            })
        }};
    }
    let r = match h {
        H::Mimc => go!(mimc, AbstractHashMimcOutput, AbstractHashMimc),
        H::Poseidon => go!(poseidon, AbstractHashPoseidonOutput, AbstractHashPoseidon),
        H::Rescue => go!(rescue, AbstractHashRescueOutput, AbstractHashRescue),
    };
    match r {
        Ok(Ok((pv, val, vars))) => {
            ctx.check(val == Some(nat), &format!("hash_enforce-value {:?}", h), || what());
            ctx.check(vars.len() == 1 && rec.value(vars[0]) == nat && rec.sat(), &format!("hash_enforce-assignment {:?}", h), || what());
            // keys are made with any values in place of the parameters
            for d in [F::zero(), F::from(3u64)] {
                let mut b = Recorder::<F>::for_setup();
                macro_rules! blank {
                    ($m:ident, $o:ident, $hh:ident) => {{
                        guard(|| {
                            let ps: Vec<$m::$o<F>> = (0..params.len()).map(|i| $m::$o::alloc(b.ns(|| format!("p{}", i)), Some(d)).unwrap()).collect();
                            let refs: Vec<&$m::$o<F>> = ps.iter().collect();
                            $m::$hh::<F>::hash_enforce(b.ns(|| "h"), &refs).map(|_| ())
                        })
                    }};
                }
                let r = match h {
                    H::Mimc => blank!(mimc, AbstractHashMimcOutput, AbstractHashMimc),
                    H::Poseidon => blank!(poseidon, AbstractHashPoseidonOutput, AbstractHashPoseidon),
                    H::Rescue => blank!(rescue, AbstractHashRescueOutput, AbstractHashRescue),
                };
                ctx.check(matches!(r, Ok(Ok(()))) && b.canonical() == rec.canonical(), &format!("shape hash_enforce {:?}", h), || format!("{}: constraints depend on the values", what()));
            }
            let ni = rec.inputs.len();
            let mut known: Vec<usize> = pv.iter().map(|v| vid::<F>(ni, *v)).collect();
            known.extend(1..ni); // publics are the verifier's
            let outs: Vec<usize> = vars.iter().map(|v| vid::<F>(ni, *v)).collect();
            if exhaustive {
                let sys = Sys::of(&rec);
                let z = Sys::full(&rec);
                let fixed: Vec<(usize, F)> = known.iter().map(|k| (*k, z[*k])).collect();
                let mut sols = 0;
                let mut bad = None;
                let n = sys.solutions(&fixed, |s| {
                    sols += 1;
                    if outs.iter().any(|o| s[*o] != z[*o]) {
                        bad = Some(s.to_vec());
                    }
                    bad.is_none() && sols < 300
                });
                ctx.step(n);
                ctx.trace(1);
                if let Some(b) = bad {
                    ctx.violate(&format!("unbound-output hash_enforce {:?}", h), || format!("{}: another satisfying assignment gives output {} instead of {}", what(), fs(&b[outs[0]]), fs(&nat)));
                }
                ctx.check(sols > 0, &format!("unsatisfiable hash_enforce {:?}", h), || what());
            } else {
                verdict(ctx, &format!("hash_enforce {:?}", h), &rec, &known, &outs, &what);
            }
        }
        Ok(Err(e)) => ctx.violate(&format!("refused hash_enforce {:?}", h), || format!("{}: {:?}", what(), e)),
        Err(e) => ctx.violate(&format!("panic hash_enforce {:?}", h), || format!("{}: {}", what(), e)),
    }
}
pub fn d04(ctx: &Ctx) {
    let lens: Vec<usize> = (1..=ctx.b(40, 80)).collect();
    d04_msgs::<FBig>(ctx, "61-bit field", &lens);
    let lens: Vec<usize> = ctx.b(vec![1, 20, 31, 32, 33, 64, 65, 96, 100, 129, 161, 257], (1..=130).chain([160, 161, 255, 256, 257, 512, 1025]).collect());
    d04_msgs::<Fr>(ctx, "255-bit field", &lens);
    d04_msgs::<F8191>(ctx, "F8191", &[1, 7, 8, 9, 16, 17, 24]);
    // interface used by other gadgets
    fn big<F: PrimeField>(ctx: &Ctx, name: &str, n: usize) {
        let vals = [F::zero(), F::one(), -F::one(), F::from(5u64)];
        let mut jobs = vec![];
        for h in HS {
            for l in 1..=n {
                for t in tuples(&vals, l) {
                    jobs.push((h, t));
                }
            }
        }
        for h in HS {
            for l in ctx.b(vec![4usize, 5, 8, 9, 16, 17], vec![5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33]) {
                jobs.push((h, (0..l).map(|i| F::from(3 * i as u64 + 1) * F::from(1u64 << 40)).collect()));
                jobs.push((h, (0..l).map(|i| if i + 1 == l { F::one() } else { F::zero() }).collect()));
            }
        }
        par_for(&jobs, |_, (h, t)| enforce_case::<F>(ctx, name, *h, t, false));
    }
    big::<FBig>(ctx, "61-bit field", ctx.b(3, 4));
    big::<Fr>(ctx, "255-bit field", ctx.b(1, 2));
    fn small<F: PrimeField>(ctx: &Ctx, name: &str, p: u64, step: usize) {
        let mut jobs = vec![];
        for h in HS {
            // ark-ff cannot parse the decimal constants over a field with no element 10
            if p <= 10 && h != H::Mimc {
                continue;
            }
            for a in (0..p).step_by(step) {
                for b in (0..p).step_by(step) {
                    jobs.push((h, vec![F::from(a), F::from(b)]));
                }
                jobs.push((h, vec![F::from(a)]));
            }
        }
        par_for(&jobs, |_, (h, t)| enforce_case::<F>(ctx, name, *h, t, true));
    }
    small::<F7>(ctx, "F7", 7, 1);
    small::<F17>(ctx, "F17", 17, ctx.b(4, 1));
    small::<F127>(ctx, "F127", 127, ctx.b(42, 9));
    ctx.bound("messages of every length 1..=40 (80) bytes over a 61-bit field, up to 257 (1025) over 255 bits, three contents each; hash_enforce over all parameter tuples up to length 3 from {0,1,-1,5} and longer lists up to 17 (33); all parameter pairs of F7 (F17, F127 strided) with every internal assignment");
}

// ---------------------------------------------------------------- D05
fn d05_field<F: PrimeField>(ctx: &Ctx, fname: &str, maxlen: usize) {
    let mut jobs = vec![];
    for h in HS {
        for l in 0..=maxlen {
            let n = limb_bytes::<F>();
            let near = [0, 1, 2, n - 1].contains(&(l % n)) && l <= 2 * n + 2;
            if h != H::Mimc && !ctx.thorough() && !near {
                continue;
            }
            jobs.push((h, l, false));
        }
        // long messages, each byte changed in one way
        let n = limb_bytes::<F>();
        let long = if h == H::Mimc { ctx.b(vec![16 * n, 255, 256, 257, 512, 1025], vec![16 * n, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4097]) } else { ctx.b(vec![3 * n, 4 * n + 1, 130], vec![160, 8 * n, 16 * n + 1, 257, 300]) };
        jobs.extend(long.into_iter().map(|l| (h, l, true)));
    }
    jobs.sort_by_key(|j| std::cmp::Reverse((j.0 != H::Mimc, j.1)));
    par_for(&jobs, |_, (h, len, thin)| {
        // all messages of this length explored: three bases, each with every byte changed
        let mut seen: BTreeMap<Vec<u64>, Vec<u8>> = BTreeMap::new();
        let mut msgs: Vec<Vec<u8>> = vec![];
        for c in 0..if *thin { 1 } else { 3 } {
            let m = message::<F>(*len, c);
            msgs.push(m.clone());
            for i in 0..*len {
                for d in [1u8, 0x80, 0xff] {
                    if *thin && d != 1 {
                        continue;
                    }
                    let mut x = m.clone();
                    x[i] = x[i].wrapping_add(d);
                    msgs.push(x);
                }
            }
            // permuted words
            let n = limb_bytes::<F>();
            if *len >= 2 * n {
                let mut x = m.clone();
                x.rotate_left(n);
                msgs.push(x);
            }
        }
        msgs.sort();
        msgs.dedup();
        for m in msgs {
            if !in_range::<F>(&m) {
                continue;
            }
            ctx.step(1);
            ctx.state(&(fname, format!("{:?}", h), m.clone()));
            let r = guard(|| (native::<F>(*h, &m), native::<F>(*h, &m)));
            match r {
                Err(e) => ctx.violate(&format!("panic {:?} {}", h, if m.is_empty() { "empty message" } else { "message" }), || format!("{} {:?} {} bytes {:02x?}: {}", fname, h, m.len(), m, e)),
                Ok((a, b)) => {
                    ctx.trace(1);
                    ctx.check(a == b, "nondeterministic", || format!("{:?} {:02x?}", h, m));
                    let key: Vec<u64> = a.into_repr().as_ref().to_vec();
                    if let Some(o) = seen.insert(key, m.clone()) {
                        ctx.violate(&format!("collision {:?} {}", h, if m.len() % limb_bytes::<F>() != 0 { "partial last word" } else { "full words" }), || format!("{} {:?}: messages {:02x?} and {:02x?} have the same digest", fname, h, o, m));
                    }
                }
            }
        }
        ctx.sample("length", || format!("{} {:?} {} bytes: {} distinct digests", fname, h, len, seen.len()));
    });
    // words that are not below the modulus
    let n = limb_bytes::<F>();
    for h in HS {
        let mut seen: BTreeMap<Vec<u64>, Vec<u8>> = BTreeMap::new();
        for pos in 0..3 {
            for low in 0..8u8 {
                let mut m = vec![0u8; 3 * n];
                for i in 0..n {
                    m[pos * n + i] = 0xff;
                }
                m[pos * n] = low;
                ctx.step(1);
                if let Ok(a) = guard(|| native::<F>(h, &m)) {
                    ctx.trace(1);
                    if let Some(o) = seen.insert(a.into_repr().as_ref().to_vec(), m.clone()) {
                        let zeroed = |m: &[u8]| -> Vec<u8> { m.chunks(n).flat_map(|c| if in_range::<F>(c) { c.to_vec() } else { vec![0; c.len()] }).collect() };
                        let key = if zeroed(&m) == zeroed(&o) { "out-of-range-word" } else { "collision full words" };
                        ctx.violate(&format!("{} {:?}", key, h), || format!("{} {:?}: messages {:02x?} and {:02x?} have the same digest", fname, h, o, m));
                    }
                }
            }
        }
    }
}
pub fn d05(ctx: &Ctx) {
    d05_field::<Fr>(ctx, "255-bit field", ctx.b(72, 140));
    d05_field::<FBig>(ctx, "61-bit field", ctx.b(40, 80));
    ctx.bound("every length (quick: for Poseidon and Rescue the lengths next to a word boundary) 0..=72 (140) / 0..=40 (80) bytes; three base contents; every byte changed three ways; all pairs of one length compared; longer messages (MiMC up to 1025 (4097), Poseidon and Rescue up to 130 (300) bytes) with every byte changed once");
    ctx.assume("collisions are only decided within the enumerated set");
}
