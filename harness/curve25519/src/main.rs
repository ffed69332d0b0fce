//! C01: the curve25519 wrapper against curve25519-dalek's scalars and points.
use ark_ff::{BigInteger, BigInteger256, Field, FromBytes, LegendreSymbol, One, PrimeField, SquareRootField, ToBytes, UniformRand, Zero};
use ark_ff::{FftField, FpParameters};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use curve25519_dalek::{
    constants::RISTRETTO_BASEPOINT_POINT as BASE,
    ristretto::{CompressedRistretto, RistrettoPoint},
    scalar::Scalar,
    traits::Identity,
};
use mccore::*;
use std::collections::{HashSet, VecDeque};
use zkp_curve::{AffineCurve, Curve, ProjectiveCurve};
use zkp_curve25519::{Curve25519, Curve25519Point as Pt, Fr, FrParameters};

mod proofs;

/// the 32 little-endian bytes of a scalar, through the wrapper's own representation
fn bytes_of(f: &Fr) -> [u8; 32] {
    let mut b = [0u8; 32];
    for (i, l) in f.into_repr().0.iter().enumerate() {
        b[8 * i..8 * i + 8].copy_from_slice(&l.to_le_bytes());
    }
    b
}
fn limbs(b: &[u8; 32]) -> BigInteger256 {
    let mut l = [0u64; 4];
    for i in 0..4 {
        l[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    BigInteger256(l)
}
fn to_fr(s: &Scalar) -> Fr {
    Fr::from_repr(limbs(s.as_bytes())).expect("a reduced scalar is a field element")
}
fn agrees(f: &Fr, s: &Scalar) -> bool {
    bytes_of(f) == *s.as_bytes()
}
fn two_pow(k: u32) -> Scalar {
    let mut s = Scalar::one();
    for _ in 0..k {
        s = s + s;
    }
    s
}
/// boundary scalars: around zero, the modulus, its half, limb edges, and limb patterns
fn scalars(thorough: bool) -> Vec<Scalar> {
    let one = Scalar::one();
    let mut v: Vec<Scalar> = (0u64..5).map(Scalar::from).collect();
    for k in 1..4u64 {
        v.push(-Scalar::from(k));
    }
    let half = -(Scalar::from(2u64).invert());
    for d in [half, half + one, half + one + one, half - one] {
        v.push(d);
    }
    v.push(Scalar::from(3u64).invert());
    for k in [32u32, 63, 64, 127, 128, 129, 191, 192, 251, 252] {
        let p = two_pow(k);
        v.push(p);
        v.push(p - one);
        if thorough {
            v.push(p + one);
            v.push(-p);
        }
    }
    // every pattern of all-zero / all-one / alternating limbs
    let pat: &[u64] = if thorough { &[0, u64::MAX, 0xAAAA_AAAA_AAAA_AAAA] } else { &[0, u64::MAX] };
    for t in tuples(pat, 4) {
        let mut b = [0u8; 32];
        for (i, l) in t.iter().enumerate() {
            b[8 * i..8 * i + 8].copy_from_slice(&l.to_le_bytes());
        }
        v.push(Scalar::from_bytes_mod_order(b));
    }
    let mut out: Vec<Scalar> = vec![];
    for s in v {
        if !out.contains(&s) {
            out.push(s);
        }
    }
    out
}

/// wrong constants make the square root loop for ever: report whether it may be run
fn constants(ctx: &Ctx) -> bool {
    let minus_one = -Scalar::one();
    let m1 = limbs(minus_one.as_bytes());
    let mut m = m1;
    m.0[0] += 1;
    let p = FrParameters::MODULUS;
    let all = std::cell::Cell::new(true);
    let chk = |what: &str, ok: bool| {
        ctx.step(1);
        all.set(all.get() && ok);
        ctx.check(ok, "field-constant", || format!("{} is not what it has to be for the group order", what));
    };
    chk("MODULUS", p == m);
    chk("MODULUS_BITS", FrParameters::MODULUS_BITS == m.num_bits());
    chk("CAPACITY", FrParameters::CAPACITY == m.num_bits() - 1);
    chk("REPR_SHAVE_BITS", FrParameters::REPR_SHAVE_BITS == 256 - m.num_bits());
    let half = -(Scalar::from(2u64).invert());
    // (r-1)/2 = -1/2
    let half = half;
    chk("MODULUS_MINUS_ONE_DIV_TWO", FrParameters::MODULUS_MINUS_ONE_DIV_TWO == limbs(half.as_bytes()));
    let mut t = m1;
    let mut s = 0;
    while !t.is_odd() {
        t.div2();
        s += 1;
    }
    chk("TWO_ADICITY", <FrParameters as ark_ff::FftParameters>::TWO_ADICITY == s);
    chk("T", FrParameters::T == t);
    let mut t2 = t;
    t2.0[0] -= 1;
    t2.div2();
    chk("T_MINUS_ONE_DIV_TWO", FrParameters::T_MINUS_ONE_DIV_TWO == t2);
    chk("INV", FrParameters::INV.wrapping_mul(m.0[0]) == u64::MAX);
    // Montgomery constants, through the scalars: R = 2^256, R2 = 2^512
    chk("R", FrParameters::R == limbs(two_pow(256).as_bytes()));
    chk("R2", FrParameters::R2 == limbs(two_pow(512).as_bytes()));
    // the generator generates: r-1 = 4 * 3 * 11 * (a prime), so it is no 2nd, 3rd, 11th or big power
    let g = Fr::multiplicative_generator();
    for q in [2u64, 3, 11] {
        let e = -(Scalar::from(q).invert()); // (r-1)/q = -1/q
        chk(&format!("GENERATOR^((r-1)/{})", q), !g.pow(limbs(e.as_bytes())).is_one());
    }
    chk("GENERATOR^132", !g.pow([132u64]).is_one());
    let w = Fr::two_adic_root_of_unity();
    chk("TWO_ADIC_ROOT_OF_UNITY", w.pow([1u64 << s]).is_one() && !w.pow([1u64 << (s - 1)]).is_one());
    all.get()
}

fn field(ctx: &Ctx, roots: bool) {
    let ss = scalars(ctx.thorough());
    ctx.bound(format!("{} boundary scalars, all pairs under + - * /, all triples of {} under the ring laws", ss.len(), ctx.b(14, 24)));
    let cmp = |f: Result<Fr, String>, s: Scalar, what: &str, x: &Scalar, y: &Scalar| {
        ctx.step(1);
        let ok = matches!(&f, Ok(f) if agrees(f, &s));
        ctx.check(ok, &format!("field-{}", what), || format!("{} of {:?} and {:?}: {:?}, expected {:?}", what, x.as_bytes(), y.as_bytes(), f.map(|f| bytes_of(&f)), s.as_bytes()));
    };
    par_for(&ss, |_, x| {
        let fx = to_fr(x);
        ctx.state(x.as_bytes());
        ctx.trace(1);
        cmp(Ok(fx), *x, "repr", x, x);
        cmp(guard(|| -fx), -*x, "neg", x, x);
        cmp(guard(|| fx.double()), *x + *x, "double", x, x);
        cmp(guard(|| fx.square()), *x * *x, "square", x, x);
        if *x != Scalar::zero() {
            cmp(guard(|| fx.inverse().unwrap()), x.invert(), "inverse", x, x);
        } else {
            ctx.check(fx.inverse().is_none(), "field-inverse", || "zero has an inverse".into());
        }
        let mut pw = Scalar::one();
        for e in 0..ctx.b(9u64, 40) {
            cmp(guard(|| fx.pow([e])), pw, "pow", x, &Scalar::from(e));
            pw = pw * *x;
        }
        // squares and roots
        let sq = *x * *x;
        let fsq = to_fr(&sq);
        let want = if *x == Scalar::zero() { LegendreSymbol::Zero } else { LegendreSymbol::QuadraticResidue };
        let same = |a: &LegendreSymbol, b: &LegendreSymbol| std::mem::discriminant(a) == std::mem::discriminant(b);
        ctx.step(3);
        ctx.check(same(&fsq.legendre(), &want), "field-legendre", || format!("square of {:?} has the wrong symbol", x.as_bytes()));
        // 2 is a non-residue of the group order (r = 5 mod 8)
        let nr = sq + sq;
        if roots && nr != Scalar::zero() {
            ctx.check(same(&to_fr(&nr).legendre(), &LegendreSymbol::QuadraticNonResidue), "field-legendre", || format!("twice the square of {:?} counts as a square", x.as_bytes()));
            let r = guard(|| to_fr(&nr).sqrt());
            ctx.check(matches!(r, Ok(None)), "field-sqrt", || format!("twice the square of {:?} has a root: {:?}", x.as_bytes(), r.map(|r| r.map(|r| bytes_of(&r)))));
        }
        let r = if roots { guard(|| fsq.sqrt()) } else { Ok(Some(fx)) };
        let ok = matches!(&r, Ok(Some(r)) if agrees(r, x) || agrees(r, &-*x));
        ctx.check(ok, "field-sqrt", || format!("root of the square of {:?}: {:?}", x.as_bytes(), r.map(|r| r.map(|r| bytes_of(&r)))));
        // encodings
        let mut b = vec![];
        fx.write(&mut b).unwrap();
        ctx.check(b == x.as_bytes(), "scalar-encoding", || format!("write of {:?} is {:?}", x.as_bytes(), b));
        let mut b = vec![];
        fx.serialize(&mut b).unwrap();
        ctx.check(b == x.as_bytes() && fx.serialized_size() == b.len(), "scalar-encoding", || format!("serialization of {:?} is {:?}, size {}", x.as_bytes(), b, fx.serialized_size()));
        ctx.check(Fr::deserialize(&b[..]).ok() == Some(fx) && Fr::read(&b[..]).ok() == Some(fx), "scalar-decoding", || format!("{:?}", b));
        for cut in 0..b.len() {
            ctx.check(guard(|| Fr::deserialize(&b[..cut]).is_err()) == Ok(true), "scalar-truncated", || format!("{:?} cut at {}", b, cut));
        }
        // x + k r for small k is not canonical
        let m = FrParameters::MODULUS;
        let mut y = limbs(x.as_bytes());
        loop {
            if y.add_nocarry(&m) {
                break;
            }
            let mut b = vec![];
            y.write(&mut b).unwrap();
            ctx.step(1);
            ctx.check(Fr::from_repr(y).is_none(), "scalar-non-canonical", || format!("from_repr accepts {:?}", b));
            ctx.check(guard(|| Fr::deserialize(&b[..]).is_err() && Fr::read(&b[..]).is_err()) == Ok(true), "scalar-non-canonical", || format!("decodes {:?}", b));
        }
        for y in &ss {
            let fy = to_fr(y);
            cmp(guard(|| fx + fy), x + y, "add", x, y);
            cmp(guard(|| fx - fy), x - y, "sub", x, y);
            cmp(guard(|| fx * fy), x * y, "mul", x, y);
            if *y != Scalar::zero() {
                cmp(guard(|| fx / fy), x * y.invert(), "div", x, y);
            }
            ctx.check((fx == fy) == (x == y), "field-eq", || format!("{:?} {:?}", x.as_bytes(), y.as_bytes()));
        }
    });
    let few: Vec<Fr> = ss.iter().take(ctx.b(14, 24)).map(to_fr).collect();
    for a in &few {
        for b in &few {
            for c in &few {
                ctx.step(1);
                let ok = (*a + b) * c == *a * c + *b * c && (*a * b) * c == *a * (*b * c) && (*a + b) + c == *a + (*b + c);
                ctx.check(ok, "field-laws", || format!("{} {} {}", a, b, c));
            }
        }
    }
    for n in 0..ctx.b(300u64, 3000) {
        ctx.check(agrees(&Fr::from(n), &Scalar::from(n)) && agrees(&Fr::from(n as u32), &Scalar::from(n as u32)), "field-from", || format!("from({})", n));
    }
    // sampling hits only reduced elements and uses its coins
    let mut seen = HashSet::new();
    for s in 0..ctx.b(64, 512) {
        let f = Fr::rand(&mut Coins::seeded(s));
        ctx.check(limbs(&bytes_of(&f)) < FrParameters::MODULUS && seen.insert(bytes_of(&f)), "field-rand", || format!("seed {}", s));
    }
}

#[derive(Clone)]
struct St {
    p: Pt,
    r: RistrettoPoint,
    k: i64,
    path: Vec<&'static str>,
}
type Op = (&'static str, fn(Pt) -> Pt, fn(RistrettoPoint, i64) -> (RistrettoPoint, i64));
fn g() -> Pt {
    Pt(BASE)
}
const OPS: &[Op] = &[
    ("+G", |p| p + g(), |r, k| (r + BASE, k + 1)),
    ("-G", |p| p - g(), |r, k| (r - BASE, k - 1)),
    ("+=&G", |mut p| { p += &g(); p }, |r, k| (r + BASE, k + 1)),
    ("-=&G", |mut p| { p -= &g(); p }, |r, k| (r - BASE, k - 1)),
    ("+=G", |mut p| { p += g(); p }, |r, k| (r + BASE, k + 1)),
    ("-=G", |mut p| { p -= g(); p }, |r, k| (r - BASE, k - 1)),
    ("+&G", |p| p + &g(), |r, k| (r + BASE, k + 1)),
    ("-&G", |p| p - &g(), |r, k| (r - BASE, k - 1)),
    ("p+=p", |mut p| { p += p; p }, |r, k| (r + r, 2 * k)),
    ("add_assign_mixed G", |mut p| { p.add_assign_mixed(&g()); p }, |r, k| (r + BASE, k + 1)),
    ("double_in_place", |mut p| { p.double_in_place(); p }, |r, k| (r + r, 2 * k)),
    ("add_mixed G", |p| p.add_mixed(&g()), |r, k| (r + BASE, k + 1)),
    ("neg", |p| -p, |r, k| (-r, -k)),
    ("double", |p| ProjectiveCurve::double(&p), |r, k| (r + r, 2 * k)),
    ("p+p", |p| p + p, |r, k| (r + r, 2 * k)),
    ("p-p", |p| p - &p, |_, _| (RistrettoPoint::identity(), 0)),
    ("*=3", |mut p| { p *= Fr::from(3u64); p }, |r, k| (r * Scalar::from(3u64), 3 * k)),
    ("*=-2", |mut p| { p *= -Fr::from(2u64); p }, |r, k| (r * -Scalar::from(2u64), -2 * k)),
    ("affine mul 5", |p| AffineCurve::mul(&p, Fr::from(5u64)), |r, k| (r * Scalar::from(5u64), 5 * k)),
    ("projective mul -1", |p| ProjectiveCurve::mul(p, (-Fr::one()).into_repr()), |r, k| (-r, -k)),
    ("sum", |p| [p, g(), p].iter().sum(), |r, k| (r + r + BASE, 2 * k + 1)),
    ("msm", |p| Curve25519::vartime_multiscalar_mul(&[Fr::from(2u64), -Fr::one()], &[p, g()]), |r, k| (r + r - BASE, 2 * k - 1)),
];
fn scalar_of(k: i64) -> Scalar {
    if k < 0 { -Scalar::from((-k) as u64) } else { Scalar::from(k as u64) }
}
/// state graph of the group operations from the identity, against the standard library's points
fn group_graph(ctx: &Ctx) {
    let depth = ctx.b(4, 5);
    ctx.bound(format!("{} group operations in every order up to depth {} from the identity (states merged by discrete logarithm)", OPS.len(), depth));
    let mut seen: HashSet<i64> = HashSet::new();
    let mut q = VecDeque::new();
    q.push_back(St { p: Pt::zero(), r: RistrettoPoint::identity(), k: 0, path: vec![] });
    seen.insert(0);
    while let Some(s) = q.pop_front() {
        ctx.state(&s.k);
        let zero = s.k == 0;
        ctx.check(s.p.is_zero() == zero && (s.p == Pt::zero()) == zero, "group-zero", || format!("{:?}", s.path));
        encode(ctx, &s.p, &s.r, &format!("{:?}", s.path));
        if s.path.len() == depth {
            continue;
        }
        for (name, f, rf) in OPS {
            ctx.step(1);
            ctx.trace(1);
            let mut path = s.path.clone();
            path.push(*name);
            let (r, k) = rf(s.r, s.k);
            match guard(|| f(s.p)) {
                Err(e) => ctx.violate(&format!("group-{}-fails", name), || format!("{:?}: {}", path, e)),
                Ok(p) => {
                    ctx.check(p.0 == r && r == BASE * scalar_of(k), &format!("group-{}", name), || format!("{:?}: not {} G", path, k));
                    ctx.check(p.into_affine() == p && p.into_projective() == p, "group-convert", || format!("{:?}", path));
                    if seen.insert(k) {
                        q.push_back(St { p, r, k, path });
                    }
                }
            }
        }
    }
}
fn encode(ctx: &Ctx, p: &Pt, r: &RistrettoPoint, at: &str) {
    let std = r.compress();
    ctx.step(1);
    let mut b = vec![];
    p.write(&mut b).unwrap();
    ctx.check(b == std.as_bytes(), "point-encoding", || format!("{}: bytes are not the standard encoding", at));
    ctx.check(Pt::read(&b[..]).ok().map(|q| q == *p) == Some(true), "point-decoding", || at.to_string());
    for (what, unc) in [("compressed", false), ("uncompressed", true)] {
        let mut b = vec![];
        let size = if unc {
            p.serialize_uncompressed(&mut b).unwrap();
            p.uncompressed_size()
        } else {
            p.serialize(&mut b).unwrap();
            p.serialized_size()
        };
        ctx.check(b.len() == size, "point-size", || format!("{} {}: {} bytes, declared {}", at, what, b.len(), size));
        let mut rd = &b[..];
        let q = guard(|| if unc { Pt::deserialize_uncompressed(&mut rd) } else { Pt::deserialize(&mut rd) });
        ctx.check(matches!(&q, Ok(Ok(q)) if q == p) && rd.is_empty(), "point-round-trip", || format!("{} {}: decoding leaves {} bytes, result {:?}", at, what, rd.len(), q.map(|q| q.is_ok())));
        let q = guard(|| Pt::deserialize_unchecked(&b[..]));
        ctx.check(matches!(&q, Ok(Ok(q)) if q == p), "point-round-trip", || format!("{} {} unchecked", at, what));
        for cut in 0..b.len() {
            let q = guard(|| if unc { Pt::deserialize_uncompressed(&b[..cut]).is_err() } else { Pt::deserialize(&b[..cut]).is_err() });
            ctx.check(q == Ok(true), "point-truncated", || format!("{} {} cut at {}", at, what, cut));
        }
    }
}
/// every decoding decision agrees with the standard: canonical encodings only
fn decoding(ctx: &Ctx) {
    let mut bases: Vec<[u8; 32]> = vec![];
    for k in 0..ctx.b(6i64, 24) {
        bases.push(*(BASE * scalar_of(k)).compress().as_bytes());
    }
    // field-sized boundary strings: 0, 1, p-1, p, p+1, 2^255-1, 2^256-1, and signs
    let mut p = [0xffu8; 32];
    p[31] = 0x7f;
    for low in 0xe8..=0xffu8 {
        let mut b = p;
        b[0] = low;
        bases.push(b);
        b[31] = 0xff;
        bases.push(b);
    }
    for low in 0..ctx.b(32u8, 255) {
        let mut b = [0u8; 32];
        b[0] = low;
        bases.push(b);
        b[31] = 0x80;
        bases.push(b);
    }
    let mut all: Vec<[u8; 32]> = vec![];
    for b in &bases {
        all.push(*b);
        for bit in 0..256 {
            let mut c = *b;
            c[bit / 8] ^= 1 << (bit % 8);
            all.push(c);
        }
    }
    ctx.bound(format!("{} 32-byte strings: encodings of small multiples, boundary strings, and every single-bit change of them", all.len()));
    par_for(&all, |_, b| {
        ctx.step(1);
        let std = CompressedRistretto(*b).decompress();
        let what: [(&str, Result<Option<Pt>, String>); 4] = [
            ("read", guard(|| Pt::read(&b[..]).ok())),
            ("deserialize", guard(|| Pt::deserialize(&b[..]).ok())),
            ("deserialize_uncompressed", guard(|| Pt::deserialize_uncompressed(&b[..]).ok())),
            ("deserialize_unchecked", guard(|| Pt::deserialize_unchecked(&b[..]).ok())),
        ];
        for (n, r) in what {
            let ok = match (&r, &std) {
                (Ok(Some(p)), Some(s)) => p.0 == *s && p.0.compress().as_bytes() == b,
                (Ok(None), None) => true,
                _ => false,
            };
            ctx.check(ok, "point-decoding", || format!("{} of {:?}: {:?}, standard {:?}", n, b, r, std.map(|s| s.compress())));
        }
        ctx.count(if std.is_some() { "valid-encodings" } else { "invalid-encodings" }, 1);
    });
}
/// scalar and multi-scalar multiplication at boundary scalars
fn multiplication(ctx: &Ctx) {
    let ss = scalars(ctx.thorough());
    let pts: Vec<RistrettoPoint> = vec![RistrettoPoint::identity(), BASE, -BASE, BASE + BASE, BASE * scalars(false)[11]];
    par_for(&ss, |_, s| {
        let f = to_fr(s);
        for p in &pts {
            ctx.step(3);
            let w = Pt(*p);
            let want = p * s;
            let mut m = w;
            m *= f;
            ctx.check(m.0 == want, "scalar-mul", || format!("{:?}", s.as_bytes()));
            let a = guard(|| AffineCurve::mul(&w, f));
            ctx.check(matches!(&a, Ok(a) if a.0 == want), "scalar-mul-affine", || format!("{:?} {:?}", s.as_bytes(), a));
            let a = guard(|| ProjectiveCurve::mul(w, f.into_repr()));
            ctx.check(matches!(&a, Ok(a) if a.0 == want), "scalar-mul-projective", || format!("{:?} {:?}", s.as_bytes(), a));
        }
    });
    // multi-scalar: every tuple over a small alphabet, every pair of lengths
    let sa: Vec<Scalar> = vec![Scalar::zero(), Scalar::one(), -Scalar::one(), -(Scalar::from(2u64).invert())];
    let n = ctx.b(2, 3);
    for ls in 0..=n {
        for lp in 0..=n {
            for s in tuples(&sa, ls) {
                for p in tuples(&pts[..4], lp) {
                    ctx.step(1);
                    let fs: Vec<Fr> = s.iter().map(to_fr).collect();
                    let ps: Vec<Pt> = p.iter().map(|p| Pt(*p)).collect();
                    let want = s.iter().zip(&p).fold(RistrettoPoint::identity(), |a, (s, p)| a + p * s);
                    let got = guard(|| Curve25519::vartime_multiscalar_mul(&fs, &ps));
                    ctx.check(matches!(&got, Ok(g) if g.0 == want), "multi-scalar-mul", || format!("{} scalars, {} points: {:?}", ls, lp, got));
                }
            }
        }
    }
    for n in ctx.b(vec![3usize, 189, 190, 191], vec![3, 16, 64, 189, 190, 191, 500, 800]) {
        let s: Vec<Scalar> = (0..n).map(|i| ss[i % ss.len()]).collect();
        let p: Vec<RistrettoPoint> = (0..n).map(|i| BASE * scalar_of(i as i64 - 3)).collect();
        let want = s.iter().zip(&p).fold(RistrettoPoint::identity(), |a, (s, p)| a + p * s);
        let got = Curve25519::vartime_multiscalar_mul(&s.iter().map(to_fr).collect::<Vec<_>>(), &p.iter().map(|p| Pt(*p)).collect::<Vec<_>>());
        ctx.step(1);
        ctx.check(got.0 == want, "multi-scalar-mul", || format!("{} terms", n));
    }
}
fn sampling(ctx: &Ctx) {
    let mut seen = HashSet::new();
    for s in 0..ctx.b(64, 1024) {
        let p = Pt::rand(&mut Coins::seeded(s));
        ctx.step(1);
        ctx.check(seen.insert(*p.0.compress().as_bytes()) && !p.is_zero(), "point-rand", || format!("seed {} repeats a point", s));
    }
    for n in 0..64usize {
        for x in [0u8, 1] {
            let b = vec![x; n];
            let p = Pt::from_random_bytes(&b);
            ctx.step(1);
            if n > 0 || x == 0 {
                ctx.check(p.map(|p| seen.insert(*p.0.compress().as_bytes())) == Some(true), "from-random-bytes", || format!("{:?}", b));
            }
        }
    }
    // affine view: generator, cofactor and its inverse, normalisation
    let a = <Pt as AffineCurve>::prime_subgroup_generator();
    ctx.check(a.0 == BASE, "generator", || "affine".into());
    let v = guard(|| <Pt as ProjectiveCurve>::prime_subgroup_generator());
    ctx.check(matches!(&v, Ok(p) if p.0 == BASE), "generator", || format!("projective: {:?}", v));
    for k in [0i64, 1, 5, -7] {
        let p = Pt(BASE * scalar_of(k));
        let r = guard(|| p.mul_by_cofactor().mul_by_cofactor_inv());
        ctx.check(matches!(&r, Ok(q) if *q == p), "cofactor", || format!("{}: {:?}", k, r));
        let r = guard(|| p.mul_by_cofactor_to_projective().into_affine() == p.mul_by_cofactor());
        ctx.check(r == Ok(true), "cofactor", || format!("{}: {:?}", k, r));
        let r = guard(|| {
            let mut v = [p, p + g(), Pt::zero()];
            let w = v;
            <Pt as ProjectiveCurve>::batch_normalization(&mut v);
            v == w && <Pt as ProjectiveCurve>::batch_normalization_into_affine(&v) == w.to_vec() && v.iter().all(|p| p.is_normalized())
        });
        ctx.check(r == Ok(true), "normalization", || format!("{}: {:?}", k, r));
    }
}
fn c01(ctx: &Ctx) {
    ctx.assume("curve25519-dalek's scalars and Ristretto points are the standard the wrapper is compared with");
    let roots = constants(ctx);
    field(ctx, roots);
    group_graph(ctx);
    decoding(ctx);
    multiplication(ctx);
    sampling(ctx);
    proofs::run(ctx);
}
fn main() {
    run_main(&[("C01", c01 as PropFn)]);
}
