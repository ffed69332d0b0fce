//! D02 32-bit word gadgets and packed equalities; D03 SHA-256 and BLAKE2s circuits.
use crate::bits::ev;
use ark_ff::{FpParameters, One, PrimeField, Zero};
use mccore::toy::*;
use mccore::*;
use zkp_gadgets::algebra::boolean::*;
use zkp_gadgets::algebra::uint32::UInt32;
use zkp_gadgets::hashes::abstract_hash::{AbstractHash, AbstractHashOutput};
use zkp_gadgets::hashes::blake2s::blake2s;
use zkp_gadgets::hashes::sha256::*;
use zkp_gadgets::operator::multieq::MultiEq;
use zkp_r1cs::{ConstraintSystem, LinearCombination, SynthesisError};

type Fr = ark_bls12_381::Fr;

const WORDS: [u32; 10] = [0, 1, 0xFFFF_FFFF, 0x8000_0000, 0x7FFF_FFFF, 0xAAAA_AAAA, 0x5555_5555, 0x0123_4567, 0xDEAD_BEEF, 0x0001_0000];

/// word kinds: 0 constant, 1 allocated, 2 allocated and negated bits, 3 alternating constant/allocated/negated
fn word<F: PrimeField>(rec: &mut Recorder<F>, kind: usize, v: u32) -> UInt32 {
    let setup = rec.setup;
    match kind {
        0 => UInt32::constant(v),
        1 => UInt32::alloc(rec, if setup { None } else { Some(v) }).unwrap(),
        _ => {
            let bits: Vec<Boolean> = (0..32)
                .map(|i| {
                    let b = v >> i & 1 == 1;
                    let k = if kind == 2 { 2 } else { i % 3 };
                    match k {
                        0 => Boolean::constant(b),
                        1 => Boolean::from(AllocatedBit::alloc(&mut *rec, if setup { None } else { Some(b) }).unwrap()),
                        _ => Boolean::from(AllocatedBit::alloc(&mut *rec, if setup { None } else { Some(!b) }).unwrap()).not(),
                    }
                })
                .collect();
            UInt32::from_bits(&bits)
        }
    }
}
fn bvec(v: u32) -> Vec<bool> {
    (0..32).map(|i| v >> i & 1 == 1).collect()
}
fn vars_of<F: PrimeField>(bits: &[Boolean], ni: usize) -> Vec<usize> {
    bits.iter()
        .filter_map(|b| match b {
            Boolean::Is(a) | Boolean::Not(a) => Some(vid::<F>(ni, a.get_variable())),
            _ => None,
        })
        .collect()
}
pub fn verdict<F: PrimeField>(ctx: &Ctx, name: &str, rec: &Recorder<F>, known: &[usize], outs: &[usize], what: &dyn Fn() -> String) {
    let sys = Sys::of(rec);
    let z = Sys::full(rec);
    let mut nodes = 0;
    match sys.determined(&z, known, outs, &mut nodes) {
        Det::Determined => ctx.count("outputs determined", 1),
        Det::Second(s) => {
            let d: Vec<String> = outs.iter().filter(|o| s[**o] != z[**o]).take(3).map(|o| format!("var {}: {} instead of {}", o, fs(&s[*o]), fs(&z[*o]))).collect();
            let ch = (0..sys.n).filter(|i| s[*i] != z[*i]).count();
            ctx.violate(&format!("unbound-output {}", name), || format!("{}: another satisfying assignment with the same inputs gives a different output ({}; {} variables changed)", what(), d.join(", "), ch));
        }
        Det::Undecided(n) => {
            ctx.count("undecided", 1);
            ctx.capped();
            ctx.sample("undecided", || format!("{}: {} outputs not forced by propagation, no second assignment found", what(), n));
        }
    }
    ctx.step(nodes);
    ctx.trace(1);
}
/// operand words, the operation, the machine-word model
fn word_op<F: PrimeField>(ctx: &Ctx, name: &str, kinds: &[usize], vals: &[u32], f: &dyn Fn(&mut Recorder<F>, &[UInt32]) -> Result<Vec<UInt32>, SynthesisError>, spec: &[u32], det: bool) {
    let what = || format!("{} kinds {:?} words {:x?}", name, kinds, vals);
    let mut rec = Recorder::<F>::new();
    ctx.step(1);
    ctx.state(&(name, kinds, vals));
    let r = guard(|| {
        let ops: Vec<UInt32> = kinds.iter().zip(vals).map(|(k, v)| word(&mut rec, *k, *v)).collect();
        let o = f(&mut rec, &ops);
        (ops, o)
    });
    let (ops, out) = match r {
        Ok((o, Ok(x))) => (o, x),
        Ok((_, Err(e))) => {
            ctx.violate(&format!("refused {}", name), || format!("{}: {:?}", what(), e));
            return;
        }
        Err(e) => {
            ctx.violate(&format!("panic {}", name), || format!("{}: {}", what(), e));
            return;
        }
    };
    ctx.check(rec.sat(), &format!("honest-assignment {}", name), || what());
    let ni = rec.inputs.len();
    let z = Sys::full(&rec);
    for (o, s) in out.iter().zip(spec) {
        let bits = o.clone().into_bits();
        let got: Vec<Option<bool>> = bits.iter().map(|b| b.get_value()).collect();
        ctx.check(got == bvec(*s).iter().map(|x| Some(*x)).collect::<Vec<_>>(), &format!("value {}", name), || format!("{}: expected {:08x}", what(), s));
        let asg: Vec<F> = bits.iter().map(|b| ev(b, &z, ni)).collect();
        ctx.check(asg == bvec(*s).iter().map(|x| if *x { F::one() } else { F::zero() }).collect::<Vec<_>>(), &format!("assignment {}", name), || format!("{}: expected {:08x}", what(), s));
        let mut be = o.clone().into_bits_be();
        be.reverse();
        ctx.check(be.iter().map(|b| b.get_value()).collect::<Vec<_>>() == got, &format!("bit-order {}", name), || what());
        // the cached word value feeds later additions
        let mut r2 = rec.clone();
        let re = guard(|| {
            let mut m = MultiEq::new(r2.ns(|| "again"));
            UInt32::addmany(m.ns(|| "a"), &[o.clone(), UInt32::constant(0)])
        });
        if let Ok(Ok(w)) = re {
            let got2: Vec<Option<bool>> = w.into_bits().iter().map(|b| b.get_value()).collect();
            ctx.check(got2 == got && r2.sat(), &format!("cached-value {}", name), || what());
        }
    }
    // blank synthesis produces the same constraints
    let mut b = Recorder::<F>::for_setup();
    let r = guard(|| {
        let ops: Vec<UInt32> = kinds.iter().zip(vals).map(|(k, v)| word(&mut b, *k, *v)).collect();
        f(&mut b, &ops).map(|_| ())
    });
    ctx.check(matches!(r, Ok(Ok(()))) && b.canonical() == rec.canonical(), &format!("shape {}", name), || format!("{}: blank synthesis differs", what()));
    if det {
        let known: Vec<usize> = ops.iter().flat_map(|o| vars_of::<F>(&o.clone().into_bits(), ni)).collect();
        let outs: Vec<usize> = out.iter().flat_map(|o| vars_of::<F>(&o.clone().into_bits(), ni)).collect();
        verdict(ctx, name, &rec, &known, &outs, &what);
        // internal bits are bits even when the operands are not fixed
        ctx.sample(name, || format!("{} -> {:x?}, {} constraints", what(), spec, rec.cons.len()));
    } else {
        ctx.trace(1);
    }
}
pub fn d02(ctx: &Ctx) {
    let th = true;
    let mut words = WORDS.to_vec();
    if ctx.thorough() {
        words.extend((0..32).step_by(3).map(|i| 1u32 << i));
        words.extend((1..32).step_by(3).map(|i| !(1u32 << i)));
        words.extend((1..32).step_by(5).map(|i| (1u32 << i) - 1));
    }
    let pairs: Vec<(u32, u32)> = words.iter().flat_map(|a| words.iter().map(move |b| (*a, *b))).collect();
    // unary
    let mut jobs: Vec<(usize, u32)> = vec![];
    for k in 0..4 {
        for w in words.iter().cloned() {
            jobs.push((k, w));
        }
    }
    par_for(&jobs, |_, (k, w)| {
        for by in (0..=33).chain([63, 64, 65]) {
            word_op::<Fr>(ctx, "rotr", &[*k], &[*w], &|_, o| Ok(vec![o[0].rotr(by)]), &[w.rotate_right(by as u32 % 32)], by == 7);
        }
        for by in 0..32 {
            word_op::<Fr>(ctx, "shr", &[*k], &[*w], &|_, o| Ok(vec![o[0].shr(by)]), &[w >> by], by == 3);
        }
        word_op::<Fr>(
            ctx,
            "bits-roundtrip",
            &[*k],
            &[*w],
            &|_, o| {
                let le = o[0].clone().into_bits();
                let be = o[0].clone().into_bits_be();
                Ok(vec![UInt32::from_bits(&le), UInt32::from_bits_be(&be), UInt32::from_bits(&be), UInt32::from_bits_be(&le)])
            },
            &[*w, *w, w.reverse_bits(), w.reverse_bits()],
            false,
        );
    });
    // binary and ternary
    let mut jobs: Vec<(usize, usize, u32, u32)> = vec![];
    for a in 0..4 {
        for b in 0..4 {
            for (x, y) in &pairs {
                jobs.push((a, b, *x, *y));
            }
        }
    }
    par_for(&jobs, |i, (a, b, x, y)| {
        word_op::<Fr>(ctx, "xor", &[*a, *b], &[*x, *y], &|c, o| Ok(vec![o[0].xor(c.ns(|| "x"), &o[1])?]), &[x ^ y], true);
        word_op::<Fr>(
            ctx,
            "addmany",
            &[*a, *b],
            &[*x, *y],
            &|c, o| {
                let mut m = MultiEq::new(c.ns(|| "m"));
                Ok(vec![UInt32::addmany(m.ns(|| "a"), o)?])
            },
            &[x.wrapping_add(*y)],
            true,
        );
        for c in 0..4 {
            if !th && (i + c) % 4 != 0 {
                continue;
            }
            for z in [WORDS[(i + 2) % 10], 0xF0F0_1234] {
                word_op::<Fr>(ctx, "sha256_ch", &[*a, *b, c], &[*x, *y, z], &|cs, o| Ok(vec![UInt32::sha256_ch(cs.ns(|| "x"), &o[0], &o[1], &o[2])?]), &[(x & y) ^ (!x & z)], c == 1 || th);
                word_op::<Fr>(ctx, "sha256_maj", &[*a, *b, c], &[*x, *y, z], &|cs, o| Ok(vec![UInt32::sha256_maj(cs.ns(|| "x"), &o[0], &o[1], &o[2])?]), &[(x & y) ^ (x & z) ^ (y & z)], c == 1 || th);
            }
        }
    });
    // additions of every supported width
    let mut jobs: Vec<(Vec<usize>, Vec<u32>)> = vec![];
    for n in 2..=10usize {
        for pat in 0..12usize {
            let kinds: Vec<usize> = (0..n)
                .map(|i| match pat {
                    0 => 1,
                    1 => 0,
                    2 => 3,
                    3 => (i == 0) as usize,
                    4 => (i == n - 1) as usize,
                    5 => 1 - (i == 0) as usize,
                    _ => (i * pat + pat) % 4,
                })
                .collect();
            for vp in 0..ctx.b(14usize, 40) {
                let vals: Vec<u32> = (0..n)
                    .map(|i| match vp {
                        0 => u32::MAX,
                        1 => 0,
                        2 => 1 << 31,
                        3 => if i == 0 { u32::MAX } else { 1 },
                        _ => WORDS[(i * vp + vp + n) % 10],
                    })
                    .collect();
                jobs.push((kinds.clone(), vals));
            }
        }
    }
    par_for(&jobs, |_, (k, v)| {
        let s = v.iter().fold(0u32, |a, x| a.wrapping_add(*x));
        word_op::<Fr>(
            ctx,
            "addmany",
            k,
            v,
            &|c, o| {
                let mut m = MultiEq::new(c.ns(|| "m"));
                Ok(vec![UInt32::addmany(m.ns(|| "a"), o)?])
            },
            &[s],
            true,
        );
    });
    // several additions packed into shared constraints, chained
    let ns: Vec<usize> = (1..=ctx.b(30, 60)).collect();
    par_for(&ns, |_, n| {
        for mix in 0..3usize {
            let kinds = vec![1, if mix == 0 { 1 } else { 3 }, if mix == 2 { 2 } else { 1 }];
            let vals = vec![0xFFFF_FFFE, 0x8000_0001, WORDS[*n % 10]];
            let mut spec = vec![];
            let mut acc = vals[0];
            for i in 0..*n {
                acc = match i % 3 {
                    0 => acc.wrapping_add(vals[1]),
                    1 => acc.wrapping_add(vals[2]).wrapping_add(vals[1]),
                    _ => acc.wrapping_add(vals[2]).wrapping_add(0x9E37_79B9).wrapping_add(vals[0]),
                };
                spec.push(acc);
            }
            word_op::<Fr>(
                ctx,
                "addmany packed",
                &kinds,
                &vals,
                &|c, o| {
                    let mut m = MultiEq::new(c.ns(|| "m"));
                    let mut acc = o[0].clone();
                    let mut out = vec![];
                    for i in 0..*n {
                        let ops = match i % 3 {
                            0 => vec![acc, o[1].clone()],
                            1 => vec![acc, o[2].clone(), o[1].clone()],
                            _ => vec![acc, o[2].clone(), UInt32::constant(0x9E37_79B9), o[0].clone()],
                        };
                        acc = UInt32::addmany(m.ns(|| format!("a{}", i)), &ops)?;
                        out.push(acc.clone());
                    }
                    Ok(out)
                },
                &spec,
                true,
            );
        }
    });
    ctx.bound("255-bit field; operand kinds constant/allocated/negated/mixed; 10 (34) boundary words (all pairs); every rotation 0..=33,63..65 and shift 0..=31; additions of 2..=10 words; up to 30 (60) chained additions sharing packed constraints; outputs decided over all assignments of the non-operand variables");
    multieq::<F257>(ctx, 4, 3);
    multieq::<F8191>(ctx, 4, 4);
    if ctx.thorough() {
        multieq::<F257>(ctx, 5, 3);
        multieq::<F8191>(ctx, 4, 6);
    }
    multieq::<F97>(ctx, 3, 3);
}
/// MultiEq: every sequence of widths and every tuple of differences
fn multieq<F: PrimeField>(ctx: &Ctx, len: usize, maxw: usize) {
    let cap = <F::Params as FpParameters>::CAPACITY as usize;
    let mut seqs = vec![];
    for l in 1..=len {
        seqs.extend(tuples(&(1..=maxw).collect::<Vec<_>>(), l));
    }
    // widest single equality allowed
    seqs.push(vec![cap - 1]);
    seqs.push(vec![cap - 1, 1]);
    seqs.push(vec![1, cap - 1]);
    seqs.push(vec![cap / 2, cap / 2, 1]);
    par_for(&seqs, |_, ws| {
        if ws.iter().map(|w| (2 << w) as u64).product::<u64>() > 70_000 {
            return;
        }
        let mut rec = Recorder::<F>::new();
        let mut ids = vec![];
        let r = guard(|| {
            let mut vars = vec![];
            for _ in ws {
                let a = rec.alloc(|| "a", || Ok(F::zero())).unwrap();
                let b = rec.alloc(|| "b", || Ok(F::zero())).unwrap();
                vars.push((a, b));
            }
            ids = vars.clone();
            let mut m = MultiEq::new(rec.ns(|| "m"));
            for (w, (a, b)) in ws.iter().zip(&vars) {
                m.enforce_equal(*w, &(LinearCombination::zero() + *a), &(LinearCombination::zero() + *b));
            }
        });
        if let Err(e) = r {
            ctx.violate("panic multieq", || format!("widths {:?} capacity {}: {}", ws, cap, e));
            return;
        }
        let sys = Sys::of(&rec);
        let dom: Vec<usize> = ws.iter().map(|w| (2usize << w) - 1).collect();
        let mut n = 0;
        for d in product(&dom) {
            n += 1;
            let mut z = vec![F::zero(); sys.n];
            z[0] = F::one();
            let mut eq = true;
            for (i, w) in ws.iter().enumerate() {
                let diff = d[i] as i64 - ((1i64 << w) - 1);
                eq &= diff == 0;
                // representatives with both sides below 2^w
                let (a, b) = if diff >= 0 { (diff, 0) } else { (0, -diff) };
                z[sys.id(ids[i].0)] = fi(a);
                z[sys.id(ids[i].1)] = fi(b);
            }
            if sys.sat(&z) != eq {
                ctx.violate(if eq { "equal rejected multieq" } else { "unequal accepted multieq" }, || format!("widths {:?} capacity {}: values {}", ws, cap, vs(&z)));
            }
        }
        ctx.step(n);
        ctx.trace(1);
        ctx.state(&("multieq", cap, ws));
        ctx.sample("multieq", || format!("capacity {} widths {:?}: {} difference tuples, {} constraints", cap, ws, n, rec.cons.len()));
    });
    ctx.bound(format!("packed equality: capacity {} bits, every width sequence up to length {} with widths 1..={}, every difference tuple", cap, len, maxw));
}

// ---------------------------------------------------------------- D03
pub mod refhash {
    pub fn frac_cbrt(p: u64) -> u32 {
        // floor(frac(cbrt(p)) * 2^32) = floor(cbrt(p * 2^96)) mod 2^32
        let n = (p as u128) << 96;
        let (mut lo, mut hi) = (0u128, 1u128 << 40);
        while lo < hi {
            let m = (lo + hi + 1) / 2;
            if m.checked_mul(m).and_then(|x| x.checked_mul(m)).map(|x| x <= n).unwrap_or(false) {
                lo = m
            } else {
                hi = m - 1
            }
        }
        lo as u32
    }
    pub fn frac_sqrt(p: u64) -> u32 {
        let n = (p as u128) << 64;
        let (mut lo, mut hi) = (0u128, 1u128 << 48);
        while lo < hi {
            let m = (lo + hi + 1) / 2;
            if m * m <= n {
                lo = m
            } else {
                hi = m - 1
            }
        }
        lo as u32
    }
    pub fn primes(n: usize) -> Vec<u64> {
        (2u64..).filter(|p| (2..*p).take_while(|d| d * d <= *p).all(|d| p % d != 0)).take(n).collect()
    }
    pub fn compress(h: &mut [u32; 8], block: &[u8]) {
        let k: Vec<u32> = primes(64).iter().map(|p| frac_cbrt(*p)).collect();
        let mut w = vec![0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]);
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut s = *h;
        for i in 0..64 {
            let s1 = s[4].rotate_right(6) ^ s[4].rotate_right(11) ^ s[4].rotate_right(25);
            let ch = (s[4] & s[5]) ^ (!s[4] & s[6]);
            let t1 = s[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = s[0].rotate_right(2) ^ s[0].rotate_right(13) ^ s[0].rotate_right(22);
            let mj = (s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]);
            s = [t1.wrapping_add(s0.wrapping_add(mj)), s[0], s[1], s[2], s[3].wrapping_add(t1), s[4], s[5], s[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(s[i]);
        }
    }
    pub fn iv() -> [u32; 8] {
        let p = primes(8);
        let mut h = [0; 8];
        for i in 0..8 {
            h[i] = frac_sqrt(p[i]);
        }
        h
    }
    pub fn sha256(m: &[u8]) -> Vec<u8> {
        let mut h = iv();
        let mut p = m.to_vec();
        p.push(0x80);
        while p.len() % 64 != 56 {
            p.push(0);
        }
        p.extend(((m.len() as u64) * 8).to_be_bytes());
        for b in p.chunks(64) {
            compress(&mut h, b);
        }
        h.iter().flat_map(|x| x.to_be_bytes()).collect()
    }
    pub fn blake2s(m: &[u8], person: &[u8]) -> Vec<u8> {
        const S: [[usize; 16]; 10] = [
            [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
            [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
            [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
            [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
            [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
            [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
            [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
            [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
            [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
            [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
        ];
        let iv = iv();
        let mut h = iv;
        h[0] ^= 0x0101_0000 ^ 32;
        h[6] ^= u32::from_le_bytes([person[0], person[1], person[2], person[3]]);
        h[7] ^= u32::from_le_bytes([person[4], person[5], person[6], person[7]]);
        let n = if m.is_empty() { 1 } else { (m.len() + 63) / 64 };
        for b in 0..n {
            let last = b == n - 1;
            let mut blk = m[b * 64..m.len().min(b * 64 + 64)].to_vec();
            blk.resize(64, 0);
            let t = if last { m.len() as u64 } else { (b as u64 + 1) * 64 };
            let w: Vec<u32> = blk.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
            let mut v = [0u32; 16];
            v[..8].copy_from_slice(&h);
            v[8..].copy_from_slice(&iv);
            v[12] ^= t as u32;
            v[13] ^= (t >> 32) as u32;
            if last {
                v[14] = !v[14];
            }
            for s in &S {
                let mut g = |a: usize, b: usize, c: usize, d: usize, x: u32, y: u32| {
                    v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
                    v[d] = (v[d] ^ v[a]).rotate_right(16);
                    v[c] = v[c].wrapping_add(v[d]);
                    v[b] = (v[b] ^ v[c]).rotate_right(12);
                    v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
                    v[d] = (v[d] ^ v[a]).rotate_right(8);
                    v[c] = v[c].wrapping_add(v[d]);
                    v[b] = (v[b] ^ v[c]).rotate_right(7);
                };
                g(0, 4, 8, 12, w[s[0]], w[s[1]]);
                g(1, 5, 9, 13, w[s[2]], w[s[3]]);
                g(2, 6, 10, 14, w[s[4]], w[s[5]]);
                g(3, 7, 11, 15, w[s[6]], w[s[7]]);
                g(0, 5, 10, 15, w[s[8]], w[s[9]]);
                g(1, 6, 11, 12, w[s[10]], w[s[11]]);
                g(2, 7, 8, 13, w[s[12]], w[s[13]]);
                g(3, 4, 9, 14, w[s[14]], w[s[15]]);
            }
            for i in 0..8 {
                h[i] ^= v[i] ^ v[i + 8];
            }
        }
        h.iter().flat_map(|x| x.to_le_bytes()).collect()
    }
}
fn message(len: usize, content: usize) -> Vec<u8> {
    (0..len)
        .map(|i| match content {
            0 => 0u8,
            1 => 0xff,
            2 => (i * 37 + 11) as u8,
            _ => if i + 1 == len { 0x80 } else { (i * i + 3) as u8 },
        })
        .collect()
}
/// bits of a message; `be`: most significant bit of each byte first
fn msg_bits<F: PrimeField>(rec: &mut Recorder<F>, m: &[u8], kind: usize, be: bool) -> Vec<Boolean> {
    let setup = rec.setup;
    let mut out = vec![];
    for (j, byte) in m.iter().enumerate() {
        for i in 0..8 {
            let b = byte >> (if be { 7 - i } else { i }) & 1 == 1;
            let v = if setup { None } else { Some(b) };
            out.push(match kind {
                0 => Boolean::constant(b),
                1 => Boolean::from(AllocatedBit::alloc(&mut *rec, v).unwrap()),
                2 => Boolean::from(AllocatedBit::alloc(&mut *rec, v.map(|x| !x)).unwrap()).not(),
                _ => {
                    if (i + j) % 3 == 0 {
                        Boolean::constant(b)
                    } else {
                        Boolean::from(AllocatedBit::alloc(&mut *rec, v).unwrap())
                    }
                }
            });
        }
    }
    out
}
fn digest_case(ctx: &Ctx, name: &str, m: &[u8], kind: usize, be: bool, f: &dyn Fn(&mut Recorder<Fr>, &[Boolean]) -> Result<Vec<Boolean>, SynthesisError>, want: &[u8], det: bool) {
    let what = || format!("{} of {} bytes {:02x?}.. bits kind {}", name, m.len(), &m[..m.len().min(4)], kind);
    let mut rec = Recorder::<Fr>::new();
    ctx.step(1);
    ctx.state(&(name, m, kind));
    let r = guard(|| {
        let b = msg_bits(&mut rec, m, kind, be);
        let o = f(&mut rec, &b);
        (b, o)
    });
    let (input, out) = match r {
        Ok((b, Ok(o))) => (b, o),
        Ok((_, Err(e))) => {
            ctx.violate(&format!("refused {}", name), || format!("{}: {:?}", what(), e));
            return;
        }
        Err(e) => {
            ctx.violate(&format!("panic {}", name), || format!("{}: {}", what(), e));
            return;
        }
    };
    let wb: Vec<bool> = want.iter().flat_map(|b| (0..8).map(move |i| b >> (if be { 7 - i } else { i }) & 1 == 1)).collect();
    let got: Vec<Option<bool>> = out.iter().map(|b| b.get_value()).collect();
    ctx.check(got == wb.iter().map(|x| Some(*x)).collect::<Vec<_>>(), &format!("digest {}", name), || format!("{}: digest differs from the standard", what()));
    let z = Sys::full(&rec);
    let asg: Vec<Fr> = out.iter().map(|b| ev(b, &z, 1)).collect();
    ctx.check(rec.sat() && asg == wb.iter().map(|x| if *x { Fr::one() } else { Fr::zero() }).collect::<Vec<_>>(), &format!("honest-assignment {}", name), || format!("{}: first unsatisfied {:?}", what(), rec.first_unsat()));
    ctx.trace(1);
    if det {
        let mut b = Recorder::<Fr>::for_setup();
        let r = guard(|| {
            let i = msg_bits(&mut b, m, kind, be);
            f(&mut b, &i).map(|_| ())
        });
        ctx.check(matches!(r, Ok(Ok(()))) && b.canonical() == rec.canonical(), &format!("shape {}", name), || format!("{}: blank synthesis differs", what()));
        let known = vars_of::<Fr>(&input, 1);
        let outs = vars_of::<Fr>(&out, 1);
        verdict(ctx, name, &rec, &known, &outs, &what);
        ctx.sample(name, || format!("{}: {} constraints, {} variables", what(), rec.cons.len(), rec.aux.len()));
    }
}
pub fn d03(ctx: &Ctx) {
    let th = ctx.thorough();
    assert_eq!(refhash::sha256(b"abc")[..4], [0xba, 0x78, 0x16, 0xbf]);
    assert_eq!(refhash::blake2s(b"abc", &[0; 8])[..4], [0x50, 0x8c, 0x5e, 0x8c]);
    let mut jobs: Vec<(usize, usize, usize, bool, usize)> = vec![]; // len content kind det person
    for len in 0..=ctx.b(130, 260) {
        let edge = [0, 1, 3, 4, 31, 32, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129].contains(&len);
        for kind in 0..4 {
            for content in 0..4 {
                let full = th && edge || edge && kind == 1 && content == 2 || (kind == 0 && content == 2) || (kind == 0 && edge);
                let rest = (len + content + kind) % 16 == 0;
                if full || rest {
                    jobs.push((len, content, kind, edge && (kind == 1 || kind == 3) && (content == 2 || th), (len + kind) % 3));
                }
            }
        }
    }
    // long messages: the length field and the block counter beyond one and two bytes
    for len in [248, 255, 256, 257, 503, 504, 512, 513, 1024, 2047, 4095, 4096, 8191, 8192, 8193, 8248] {
        jobs.push((len, 2, 0, false, len % 3));
    }
    for len in [256, 300, 512, 520] {
        jobs.push((len, 2, 1, false, len % 3));
    }
    if th {
        for len in [16384, 32768, 65535, 65536, 65599, 131072] {
            jobs.push((len, 2, 0, false, len % 3));
        }
        for len in [1024, 2048] {
            jobs.push((len, 2, 3, false, len % 3));
        }
    }
    jobs.sort_by_key(|j| std::cmp::Reverse((j.2 > 0, j.0)));
    par_for(&jobs, |_, (len, content, kind, det, person)| {
        let m = message(*len, *content);
        digest_case(ctx, "sha256", &m, *kind, true, &|c, b| sha256(c.ns(|| "h"), b), &refhash::sha256(&m), *det);
        let p: Vec<u8> = match person {
            0 => vec![0; 8],
            1 => b"12345678".to_vec(),
            _ => vec![0xff, 0, 0x80, 1, 2, 3, 4, 0xfe],
        };
        digest_case(ctx, "blake2s", &m, *kind, false, &|c, b| blake2s(c.ns(|| "h"), b, &p), &refhash::blake2s(&m, &p), *det);
        if *len == 64 {
            let mut h = refhash::iv();
            refhash::compress(&mut h, &m);
            let want: Vec<u8> = h.iter().flat_map(|x| x.to_be_bytes()).collect();
            digest_case(ctx, "sha256_block_no_padding", &m, *kind, true, &|c, b| sha256_block_no_padding(c.ns(|| "h"), b), &want, *det);
        }
    });
    // through the generic interface
    let cases: Vec<Vec<Vec<u8>>> = vec![
        vec![message(1, 2)],
        vec![message(32, 2), message(32, 3)],
        vec![message(32, 3), message(1, 2)],
        vec![message(1, 1), message(2, 2), message(3, 3)],
        vec![],
        vec![message(0, 0)],
        vec![message(56, 2)],
    ];
    par_for(&cases, |_, ms| {
        let flat: Vec<u8> = ms.concat();
        for input in [false, true] {
            let what = || format!("hash_enforce over parts {:?} input={}", ms.iter().map(|m| m.len()).collect::<Vec<_>>(), input);
            let mut rec = Recorder::<Fr>::new();
            ctx.step(1);
            let r = guard(|| {
                let ps: Vec<AbstractHashSha256Output> = ms
                    .iter()
                    .enumerate()
                    .map(|(i, m)| {
                        if input {
                            AbstractHashSha256Output::alloc_input::<Fr, _>(rec.ns(|| format!("p{}", i)), m.clone()).unwrap()
                        } else {
                            AbstractHashSha256Output::alloc::<Fr, _>(rec.ns(|| format!("p{}", i)), m.clone()).unwrap()
                        }
                    })
                    .collect();
                let refs: Vec<&AbstractHashSha256Output> = ps.iter().collect();
                let o = AbstractHashSha256::<Fr>::hash_enforce(rec.ns(|| "h"), &refs);
                (ps, o)
            });
            match r {
                Ok((ps, Ok(o))) => {
                    let want = refhash::sha256(&flat);
                    let wb: Vec<Fr> = want.iter().flat_map(|b| (0..8).rev().map(move |i| Fr::from((b >> i & 1) as u64))).collect();
                    let vals: Vec<Option<Fr>> = o.get_variable_values();
                    let vars = AbstractHashOutput::<Fr>::get_variables(&o);
                    ctx.check(vals == wb.iter().map(|x| Some(*x)).collect::<Vec<_>>(), "digest hash_enforce", || what());
                    ctx.check(rec.sat() && vars.iter().map(|v| rec.value(*v)).collect::<Vec<_>>() == wb, "honest-assignment hash_enforce", || what());
                    let ni = rec.inputs.len();
                    let known: Vec<usize> = ps.iter().flat_map(|p| AbstractHashOutput::<Fr>::get_variables(p)).map(|v| vid::<Fr>(ni, v)).collect();
                    let outs: Vec<usize> = vars.iter().map(|v| vid::<Fr>(ni, *v)).collect();
                    verdict(ctx, "hash_enforce", &rec, &known, &outs, &what);
                    let mut b = Recorder::<Fr>::for_setup();
                    let r = guard(|| {
                        let ps: Vec<AbstractHashSha256Output> = ms
                            .iter()
                            .enumerate()
                            .map(|(i, m)| {
                                let m = vec![0u8; m.len()];
                                if input {
                                    AbstractHashSha256Output::alloc_input::<Fr, _>(b.ns(|| format!("p{}", i)), m).unwrap()
                                } else {
                                    AbstractHashSha256Output::alloc::<Fr, _>(b.ns(|| format!("p{}", i)), m).unwrap()
                                }
                            })
                            .collect();
                        let refs: Vec<&AbstractHashSha256Output> = ps.iter().collect();
                        AbstractHashSha256::<Fr>::hash_enforce(b.ns(|| "h"), &refs).map(|_| ())
                    });
                    ctx.check(matches!(r, Ok(Ok(()))) && b.canonical() == rec.canonical(), "shape hash_enforce", || format!("{}: constraints depend on the message", what()));
                }
                Ok((_, Err(e))) => ctx.violate("refused hash_enforce", || format!("{}: {:?}", what(), e)),
                Err(e) => ctx.violate("panic hash_enforce", || format!("{}: {}", what(), e)),
            }
        }
    });
    ctx.bound("all message lengths 0..=130 (260) bytes, lengths up to 8248 (131072) with constant and up to 520 (2048) with allocated bits; message bits constant, allocated, negated and mixed; block-boundary lengths decided over all assignments of the internal variables");
    ctx.assume("reference SHA-256/BLAKE2s are written from the standards (constants derived from primes)");
}
