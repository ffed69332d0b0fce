//! D01 boolean gadgets, D06 lookup tables, D07 comparison and non-zero gadgets:
//! every solution of the synthesised constraints over small prime fields.
use ark_ff::{Field, FpParameters, PrimeField};
use mccore::toy::*;
use mccore::*;
use std::collections::BTreeSet;
use zkp_gadgets::algebra::boolean::*;
use zkp_gadgets::algebra::fr::AllocatedFr;
use zkp_gadgets::lookup::table::*;
use zkp_gadgets::operator::rangeproof::RangeProof;
use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, SynthesisError, Variable};

/// operand kinds: 0 false, 1 true, 2 allocated, 3 negated allocated, 4+j same as operand j, 8+j negation of operand j
pub fn operands<F: PrimeField>(rec: &mut Recorder<F>, kinds: &[usize], vals: &[bool]) -> Vec<Boolean> {
    let mut out: Vec<Boolean> = vec![];
    for (i, k) in kinds.iter().enumerate() {
        let alloc = |rec: &mut Recorder<F>| {
            let v = if rec.setup { None } else { Some(vals[i]) };
            AllocatedBit::alloc(rec, v).unwrap()
        };
        let b = match *k {
            0 => Boolean::constant(false),
            1 => Boolean::constant(true),
            2 => Boolean::from(alloc(rec)),
            3 => Boolean::from(alloc(rec)).not(),
            k if k >= 8 => out[k - 8].not(),
            k => out[k - 4].clone(),
        };
        out.push(b);
    }
    out
}
pub fn ev<F: PrimeField>(b: &Boolean, z: &[F], ni: usize) -> F {
    b.lc::<F>(Recorder::<F>::one(), F::one())
        .as_ref()
        .iter()
        .fold(F::zero(), |a, (v, c)| a + z[vid::<F>(ni, *v)] * c)
}
fn tobool<F: Field>(x: F) -> Option<bool> {
    if x.is_zero() {
        Some(false)
    } else if x.is_one() {
        Some(true)
    } else {
        None
    }
}
fn kind_combos(n: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..n {
        let mut nx = vec![];
        for o in &out {
            let mut ks = vec![0, 1, 2, 3];
            for j in 0..i {
                if o[j] == 2 || o[j] == 3 {
                    ks.push(4 + j);
                    ks.push(8 + j);
                }
            }
            for k in ks {
                let mut v = o.clone();
                v.push(k);
                nx.push(v);
            }
        }
        out = nx;
    }
    out
}
/// spec: Some(result) or None when the operand combination must be unsatisfiable
fn check_op<F: PrimeField>(
    ctx: &Ctx,
    name: &str,
    kinds: &[usize],
    f: &dyn Fn(&mut Recorder<F>, &[Boolean]) -> Result<Vec<Boolean>, SynthesisError>,
    spec: &dyn Fn(&[bool]) -> Option<Vec<bool>>,
) {
    let p = <F::Params as FpParameters>::MODULUS.as_ref()[0];
    let what = || format!("{} operands {:?} field F{}", name, kinds, p);
    let mut shapes = BTreeSet::new();
    let mut shape0 = None;
    for m in 0..1u32 << kinds.len() {
        let vals: Vec<bool> = (0..kinds.len()).map(|i| m >> i & 1 == 1).collect();
        let mut rec = Recorder::<F>::new();
        let r = guard(|| {
            let ops = operands(&mut rec, kinds, &vals);
            let o = f(&mut rec, &ops);
            (ops, o)
        });
        ctx.step(1);
        let (ops, out) = match r {
            Ok(x) => x,
            Err(e) => {
                ctx.violate(&format!("panic {}", name), || format!("{}: {}", what(), e));
                return;
            }
        };
        let ovals: Vec<bool> = ops.iter().map(|b| b.get_value().unwrap()).collect();
        let want = spec(&ovals);
        let out = match out {
            Ok(o) => o,
            Err(e) => {
                // refusing to synthesise is right exactly when no value can satisfy
                ctx.check(want.is_none(), &format!("refused {}", name), || format!("{}: {:?} for {:?}", what(), e, ovals));
                continue;
            }
        };
        ctx.check(rec.sat() == want.is_some(), &format!("honest-assignment {}", name), || {
            format!("{}: inputs {:?}: satisfied={} expected {:?}", what(), ovals, rec.sat(), want)
        });
        if let Some(w) = &want {
            let got: Vec<Option<bool>> = out.iter().map(|b| b.get_value()).collect();
            ctx.check(got == w.iter().map(|x| Some(*x)).collect::<Vec<_>>(), &format!("value {}", name), || format!("{}: inputs {:?}: value {:?} expected {:?}", what(), ovals, got, w));
        }
        shapes.insert(rec.cons.len());
        let can = rec.canonical();
        match &shape0 {
            None => shape0 = Some(can),
            Some(s) => {
                ctx.check(*s == can, &format!("shape {}", name), || format!("{}: constraints depend on the operand values", what()));
            }
        }
        if m == 0 {
            // blank synthesis has the same constraints
            let mut b = Recorder::<F>::for_setup();
            let r = guard(|| {
                let ops = operands(&mut b, kinds, &vals);
                f(&mut b, &ops).map(|_| ())
            });
            match r {
                Ok(Ok(())) => {
                    ctx.check(b.canonical() == rec.canonical(), &format!("shape {}", name), || format!("{}: blank synthesis differs", what()));
                }
                Ok(Err(_)) if want.is_none() => {}
                Ok(Err(e)) => ctx.violate(&format!("blank {}", name), || format!("{}: blank synthesis fails: {:?}", what(), e)),
                Err(e) => ctx.violate(&format!("blank {}", name), || format!("{}: blank synthesis panics: {}", what(), e)),
            }
            // every solution of the constraints
            let sys = Sys::of(&rec);
            let mut seen: BTreeSet<Vec<bool>> = BTreeSet::new();
            let mut n = 0u64;
            let nodes = sys.solutions(&[], |z| {
                n += 1;
                let o: Option<Vec<bool>> = ops.iter().map(|b| tobool(ev(b, z, sys.ni))).collect();
                match o {
                    None => ctx.violate(&format!("non-boolean-operand {}", name), || format!("{}: solution {}", what(), vs(z))),
                    Some(o) => {
                        match spec(&o) {
                            None => ctx.violate(&format!("accepts-forbidden {}", name), || format!("{}: solution {} for operands {:?}", what(), vs(z), o)),
                            Some(w) => {
                                let got: Vec<Option<bool>> = out.iter().map(|b| tobool(ev(b, z, sys.ni))).collect();
                                if got != w.iter().map(|x| Some(*x)).collect::<Vec<_>>() {
                                    ctx.violate(&format!("wrong-result {}", name), || format!("{}: solution {}: operands {:?} give {:?}, expected {:?}", what(), vs(z), o, got, w));
                                }
                            }
                        }
                        seen.insert(o);
                    }
                }
                true
            });
            ctx.step(nodes);
            ctx.trace(n);
            for s in &seen {
                ctx.state(&(name, kinds, p, s));
            }
            ctx.sample(name, || format!("{}: {} constraints, {} variables, {} solutions, operand values {:?}", what(), rec.cons.len(), sys.n, n, seen));
            // all realisable operand values with a result are reachable
            for m in 0..1u32 << kinds.len() {
                let v: Vec<bool> = (0..kinds.len()).map(|i| m >> i & 1 == 1).collect();
                let mut r2 = Recorder::<F>::new();
                let o: Vec<bool> = operands(&mut r2, kinds, &v).iter().map(|b| b.get_value().unwrap()).collect();
                if spec(&o).is_some() {
                    ctx.check(seen.contains(&o), &format!("unsatisfiable {}", name), || format!("{}: no solution for operands {:?}", what(), o));
                }
            }
        }
    }
}
fn d01_field<F: PrimeField>(ctx: &Ctx) {
    type B = Boolean;
    for k in kind_combos(2) {
        check_op::<F>(ctx, "Boolean::xor", &k, &|c, o| Ok(vec![B::xor(c.ns(|| "x"), &o[0], &o[1])?]), &|v| Some(vec![v[0] ^ v[1]]));
        check_op::<F>(ctx, "Boolean::and", &k, &|c, o| Ok(vec![B::and(c.ns(|| "x"), &o[0], &o[1])?]), &|v| Some(vec![v[0] & v[1]]));
        check_op::<F>(ctx, "Boolean::enforce_equal", &k, &|c, o| B::enforce_equal(c.ns(|| "x"), &o[0], &o[1]).map(|_| vec![]), &|v| if v[0] == v[1] { Some(vec![]) } else { None });
        // nested use of results
        check_op::<F>(
            ctx,
            "not/xor/and nest",
            &k,
            &|c, o| {
                let x = B::xor(c.ns(|| "x"), &o[0], &o[1].not())?;
                let y = B::and(c.ns(|| "y"), &x.not(), &o[0])?;
                Ok(vec![x, y.not()])
            },
            &|v| {
                let x = v[0] ^ !v[1];
                Some(vec![x, !(!x & v[0])])
            },
        );
    }
    for k in kind_combos(1) {
        check_op::<F>(ctx, "Boolean::not", &k, &|_, o| Ok(vec![o[0].not(), o[0].not().not()]), &|v| Some(vec![!v[0], v[0]]));
    }
    for k in kind_combos(3) {
        check_op::<F>(ctx, "Boolean::sha256_ch", &k, &|c, o| Ok(vec![B::sha256_ch(c.ns(|| "x"), &o[0], &o[1], &o[2])?]), &|v| Some(vec![if v[0] { v[1] } else { v[2] }]));
        check_op::<F>(ctx, "Boolean::sha256_maj", &k, &|c, o| Ok(vec![B::sha256_maj(c.ns(|| "x"), &o[0], &o[1], &o[2])?]), &|v| Some(vec![(v[0] as u8 + v[1] as u8 + v[2] as u8) >= 2]));
    }
    // AllocatedBit operators on distinct and identical bits
    for same in [false, true] {
        let k = if same { vec![2, 4] } else { vec![2, 2] };
        let bit = |b: &Boolean| match b {
            Boolean::Is(a) => *a,
            _ => unreachable!(),
        };
        let ops: Vec<(&str, Box<dyn Fn(&mut Recorder<F>, &AllocatedBit, &AllocatedBit) -> Result<AllocatedBit, SynthesisError>>, fn(bool, bool) -> bool)> = vec![
            ("AllocatedBit::xor", Box::new(|c, a, b| AllocatedBit::xor(c, a, b)), |a, b| a ^ b),
            ("AllocatedBit::and", Box::new(|c, a, b| AllocatedBit::and(c, a, b)), |a, b| a & b),
            ("AllocatedBit::and_not", Box::new(|c, a, b| AllocatedBit::and_not(c, a, b)), |a, b| a & !b),
            ("AllocatedBit::nor", Box::new(|c, a, b| AllocatedBit::nor(c, a, b)), |a, b| !a & !b),
        ];
        for (n, f, s) in &ops {
            check_op::<F>(ctx, n, &k, &|c, o| Ok(vec![Boolean::from(f(c, &bit(&o[0]), &bit(&o[1]))?)]), &|v| Some(vec![s(v[0], v[1])]));
        }
    }
    // conditional allocation: operand 0 = must_be_false, result bit free unless forbidden
    for val in [false, true] {
        for cond in [false, true] {
            let mut rec = Recorder::<F>::new();
            let c = AllocatedBit::alloc(rec.ns(|| "c"), Some(cond)).unwrap();
            let b = AllocatedBit::alloc_conditionally(rec.ns(|| "b"), Some(val), &c).unwrap();
            ctx.check(rec.sat() == !(val && cond), "honest-assignment alloc_conditionally", || format!("value {} condition {}", val, cond));
            let sys = Sys::of(&rec);
            let mut seen = BTreeSet::new();
            let n = sys.solutions(&[], |z| {
                seen.insert((z[sys.id(c.get_variable())], z[sys.id(b.get_variable())]));
                true
            });
            ctx.step(n);
            ctx.trace(seen.len() as u64);
            let want: BTreeSet<(F, F)> = [(F::zero(), F::zero()), (F::zero(), F::one()), (F::one(), F::zero())].into_iter().collect();
            ctx.check(seen == want, "solutions alloc_conditionally", || format!("solutions {:?}", seen));
        }
    }
    for v in [None, Some(false), Some(true)] {
        let (mut a, mut b) = (Recorder::<F>::for_setup(), Recorder::<F>::new());
        let go = |r: &mut Recorder<F>, v: Option<bool>| {
            let c = AllocatedBit::alloc(r.ns(|| "c"), v)?;
            AllocatedBit::alloc_conditionally(r.ns(|| "b"), v.map(|_| false), &c)?;
            AllocatedBit::alloc_input(r.ns(|| "i"), v).map(|_| ())
        };
        let ok = go(&mut a, v).is_ok() && go(&mut b, Some(true)).is_ok();
        ctx.check(ok && a.canonical() == b.canonical(), "shape allocated bits", || format!("{:?}", v));
    }
    // alloc / alloc_input are boolean
    for input in [false, true] {
        for val in [false, true] {
            let mut rec = Recorder::<F>::new();
            let b = if input { AllocatedBit::alloc_input(rec.ns(|| "b"), Some(val)) } else { AllocatedBit::alloc(rec.ns(|| "b"), Some(val)) }.unwrap();
            ctx.check(rec.sat() && rec.value(b.get_variable()) == (if val { F::one() } else { F::zero() }) && b.get_value() == Some(val), "value AllocatedBit", || format!("{}", val));
            ctx.check(rec.inputs.len() == 1 + input as usize, "visibility AllocatedBit", || "".into());
            let sys = Sys::of(&rec);
            let mut seen = BTreeSet::new();
            ctx.step(sys.solutions(&[], |z| {
                seen.insert(z[sys.id(b.get_variable())]);
                true
            }));
            ctx.check(seen == [F::zero(), F::one()].into_iter().collect(), "solutions AllocatedBit", || format!("{:?}", seen));
        }
    }
    // missing values are refused when a witness is required
    let mut rec = Recorder::<F>::new();
    ctx.check(AllocatedBit::alloc(&mut rec, None).is_err(), "missing AllocatedBit", || "unassigned bit accepted".into());
}
fn non_boolean_free<F: PrimeField>(sys: &Sys<F>, p: &Part<F>, z0: &[F], v: Variable, alts: &[F]) -> Option<F> {
    let id = sys.id(v);
    if let Some((a, b)) = p.dom[id] {
        if (a.is_zero() && b.is_one()) || (a.is_one() && b.is_zero()) {
            return None;
        }
    }
    for x in alts {
        let mut z = z0.to_vec();
        z[id] = *x;
        if sys.sat(&z) {
            return Some(*x);
        }
    }
    None
}
fn decomposition<F: PrimeField>(ctx: &Ctx, name: &str, f: &dyn Fn(&mut Recorder<F>) -> Result<Vec<Boolean>, SynthesisError>, want: &[bool], what: String) {
    let mut rec = Recorder::<F>::new();
    ctx.step(1);
    ctx.trace(1);
    match guard(|| f(&mut rec)) {
        Ok(Ok(b)) => {
            let got: Vec<bool> = b.iter().map(|x| x.get_value().unwrap()).collect();
            let z = Sys::full(&rec);
            let asg: Vec<Option<bool>> = b.iter().map(|x| tobool(ev(x, &z, rec.inputs.len()))).collect();
            ctx.check(got == want, &format!("value {}", name), || format!("{}: {:?}", what, got));
            ctx.check(asg == want.iter().map(|x| Some(*x)).collect::<Vec<_>>() && rec.sat(), &format!("assignment {}", name), || format!("{}: {:?}", what, asg));
            let sys = Sys::of(&rec);
            let mut part = sys.start();
            sys.propagate(&mut part, None, None);
            for (i, x) in b.iter().enumerate() {
                if let Boolean::Is(a) | Boolean::Not(a) = x {
                    if let Some(z) = non_boolean_free(&sys, &part, &z, a.get_variable(), &[F::from(2u64), -F::one(), F::from(3u64)]) {
                        ctx.violate(&format!("non-boolean-bit {}", name), || format!("{}: bit {} may be {}", what, i, z));
                    }
                }
            }
            let ids: BTreeSet<usize> = b
                .iter()
                .map(|x| match x {
                    Boolean::Is(a) | Boolean::Not(a) => vid::<F>(rec.inputs.len(), a.get_variable()),
                    _ => usize::MAX,
                })
                .collect();
            ctx.check(ids.len() == b.len(), &format!("distinct-bits {}", name), || what.clone());
        }
        Ok(Err(e)) => ctx.violate(&format!("refused {}", name), || format!("{}: {:?}", what, e)),
        Err(e) => ctx.violate(&format!("panic {}", name), || format!("{}: {}", what, e)),
    }
}
fn field_bits<F: PrimeField>(ctx: &Ctx, vals: &[F]) {
    let n = F::size_in_bits();
    for v in vals {
        let limbs = v.into_repr();
        let l = limbs.as_ref();
        let want: Vec<bool> = (0..n).map(|i| l[i / 64] >> (i % 64) & 1 == 1).collect();
        decomposition::<F>(ctx, "field_into_boolean_vec_le", &|c| field_into_boolean_vec_le(c.ns(|| "f"), Some(*v)), &want, format!("{}", v));
        ctx.state(&format!("fb {} {}", n, v));
    }
    let mut a = Recorder::<F>::for_setup();
    let mut b = Recorder::<F>::new();
    let r = guard(|| field_into_boolean_vec_le::<F, _>(a.ns(|| "f"), None).map(|x| x.len()));
    let _ = field_into_boolean_vec_le(b.ns(|| "f"), Some(vals[0]));
    ctx.check(matches!(r, Ok(Ok(k)) if k == n) && a.canonical() == b.canonical(), "shape field_into_boolean_vec_le", || "blank synthesis differs".into());
    for v in [0, 1, u64::MAX] {
        let (mut a, mut b) = (Recorder::<F>::for_setup(), Recorder::<F>::new());
        let r = guard(|| u64_into_boolean_vec_le::<F, _>(a.ns(|| "f"), None).map(|x| x.len()));
        let _ = u64_into_boolean_vec_le(b.ns(|| "f"), Some(v));
        ctx.check(matches!(r, Ok(Ok(64))) && a.canonical() == b.canonical() && a.aux.len() == b.aux.len(), "shape u64_into_boolean_vec_le", || "blank synthesis differs".into());
    }
}
pub fn d01(ctx: &Ctx) {
    ctx.bound("every boolean operator x every operand kind (constants, plain, negated, aliased, negated alias) x every solution of the constraints over F3, F5, F7, F31, F127");
    let jobs: Vec<usize> = (0..5).collect();
    par_for(&jobs, |_, j| match j {
        0 => d01_field::<F3>(ctx),
        1 => d01_field::<F5x>(ctx),
        2 => d01_field::<F7>(ctx),
        3 => d01_field::<F31>(ctx),
        _ => d01_field::<F127>(ctx),
    });
    // bit decompositions
    let mut vals: Vec<u64> = vec![0, 1, u64::MAX, u64::MAX - 1, 0xAAAAAAAAAAAAAAAA, 0x5555555555555555, 0x0123456789ABCDEF];
    for i in 0..64 {
        vals.push(1 << i);
        vals.push(!(1 << i));
    }
    for v in &vals {
        let want: Vec<bool> = (0..64).map(|i| v >> i & 1 == 1).collect();
        decomposition::<F31>(ctx, "u64_into_boolean_vec_le", &|c| u64_into_boolean_vec_le(c.ns(|| "u"), Some(*v)), &want, format!("{}", v));
        ctx.state(&("u64", *v));
    }
    field_bits::<F7>(ctx, &(0..7u64).map(F7::from).collect::<Vec<_>>());
    field_bits::<F127>(ctx, &(0..127u64).map(F127::from).collect::<Vec<_>>());
    field_bits::<F257>(ctx, &(0..257u64).map(F257::from).collect::<Vec<_>>());
    field_bits::<F8191>(ctx, &(0..8191u64).step_by(1).map(F8191::from).collect::<Vec<_>>());
    type Fr = ark_bls12_381::Fr;
    let two = Fr::from(2u64);
    let mut fv = vec![Fr::from(0u64), Fr::from(1u64), -Fr::from(1u64), -two];
    for i in 0..255u64 {
        fv.push(two.pow(&[i]));
        fv.push(two.pow(&[i]) - Fr::from(1u64));
        fv.push(-two.pow(&[i]));
    }
    field_bits::<Fr>(ctx, &fv);
    field_bits::<FBig>(ctx, &[FBig::from(0u64), FBig::from(1u64), -FBig::from(1u64), FBig::from(1u64 << 60)]);
    ctx.bound("integer decomposition: all one-hot/one-cold 64-bit words; field decomposition: all elements of F7, F127, F257, (F8191), boundary elements of 255-bit and 61-bit fields");
}

// ---------------------------------------------------------------- D06
fn lookup_check<F: PrimeField>(
    ctx: &Ctx,
    name: &str,
    kinds: &[usize],
    table: &[(F, F)],
    f: &dyn Fn(&mut Recorder<F>, &[Boolean], &[(F, F)]) -> Result<Vec<AllocatedFr<F>>, SynthesisError>,
    pair: bool,
) {
    let n = kinds.len();
    let what = || format!("{} kinds {:?} table {:?} F{}", name, kinds, table.iter().map(|x| (fs(&x.0), fs(&x.1))).collect::<Vec<_>>(), <F::Params as FpParameters>::MODULUS.as_ref()[0]);
    let entry = |b: &[bool]| {
        let i = b.iter().enumerate().fold(0, |a, (i, x)| a | (*x as usize) << i);
        if pair { vec![table[i].0, table[i].1] } else { vec![table[i].0] }
    };
    let mut shape = None;
    for m in 0..1u32 << n {
        let vals: Vec<bool> = (0..n).map(|i| m >> i & 1 == 1).collect();
        let mut rec = Recorder::<F>::new();
        ctx.step(1);
        let r = guard(|| {
            let ops = operands(&mut rec, kinds, &vals);
            let o = f(&mut rec, &ops, table);
            (ops, o)
        });
        let (ops, out) = match r {
            Ok((o, Ok(x))) => (o, x),
            Ok((_, Err(e))) => {
                ctx.violate(&format!("refused {}", name), || format!("{}: {:?}", what(), e));
                return;
            }
            Err(e) => {
                ctx.violate(&format!("panic {}", name), || format!("{}: {}", what(), e));
                return;
            }
        };
        let ov: Vec<bool> = ops.iter().map(|b| b.get_value().unwrap()).collect();
        let w = entry(&ov);
        let got: Vec<Option<F>> = out.iter().map(|o| o.get_value()).collect();
        ctx.check(got == w.iter().map(|x| Some(*x)).collect::<Vec<_>>(), &format!("value {}", name), || format!("{}: selector {:?} gives {:?}", what(), ov, got));
        let asg: Vec<F> = out.iter().map(|o| rec.value(o.get_variable())).collect();
        ctx.check(rec.sat() && asg == w, &format!("honest-assignment {}", name), || format!("{}: selector {:?} assignment {}", what(), ov, vs(&asg)));
        let can = rec.canonical();
        if m == 0 {
            let mut b = Recorder::<F>::for_setup();
            let r = guard(|| {
                let ops = operands(&mut b, kinds, &vals);
                f(&mut b, &ops, table).map(|_| ())
            });
            ctx.check(matches!(r, Ok(Ok(()))) && b.canonical() == can, &format!("shape {}", name), || format!("{}: blank synthesis differs ({:?})", what(), r.as_ref().map(|x| x.is_ok())));
            let sys = Sys::of(&rec);
            let mut seen = BTreeSet::new();
            let mut cnt = 0;
            ctx.step(sys.solutions(&[], |z| {
                cnt += 1;
                let o: Option<Vec<bool>> = ops.iter().map(|b| tobool(ev(b, z, sys.ni))).collect();
                match o {
                    None => ctx.violate(&format!("non-boolean-selector {}", name), || format!("{}: {}", what(), vs(z))),
                    Some(o) => {
                        let w = entry(&o);
                        let got: Vec<F> = out.iter().map(|x| z[sys.id(x.get_variable())]).collect();
                        if got != w {
                            ctx.violate(&format!("wrong-entry {}", name), || format!("{}: selector {:?} also allows result {}, table entry {}; assignment {}", what(), o, vs(&got), vs(&w), vs(z)));
                        }
                        seen.insert(o);
                    }
                }
                cnt < 5000
            }));
            ctx.trace(cnt);
            for s in &seen {
                ctx.state(&(name, kinds, what(), s));
            }
            ctx.sample(name, || format!("{}: {} solutions", what(), cnt));
            for m in 0..1u32 << n {
                let v: Vec<bool> = (0..n).map(|i| m >> i & 1 == 1).collect();
                let mut r2 = Recorder::<F>::new();
                let o: Vec<bool> = operands(&mut r2, kinds, &v).iter().map(|b| b.get_value().unwrap()).collect();
                ctx.check(seen.contains(&o), &format!("unsatisfiable {}", name), || format!("{}: selector {:?}", what(), o));
            }
        }
        match &shape {
            None => shape = Some(can),
            Some(s) => {
                ctx.check(*s == can, &format!("shape {}", name), || format!("{}: constraints depend on selector values", what()));
            }
        }
    }
}
fn d06_field<F: PrimeField>(ctx: &Ctx, dom: &[u64], wide: bool) {
    let first = |t: &[(F, F)]| t.iter().map(|x| x.0).collect::<Vec<F>>();
    let mk = |n: usize, dom: &[u64]| -> Vec<Vec<(F, F)>> {
        tuples(dom, n).into_iter().map(|t| t.iter().enumerate().map(|(i, x)| (F::from(*x), F::from(*x * 3 + i as u64 + 1))).collect()).collect()
    };
    let t1 = mk(2, dom);
    let t2 = mk(4, dom);
    let mut t3: Vec<Vec<(F, F)>> = vec![];
    // three-bit tables: one-hot, complements, ramps, every binary table
    for m in 0..256u64 {
        t3.push((0..8).map(|i| (F::from(m >> i & 1), F::from((m >> (7 - i) & 1) * 2))).collect());
    }
    t3.push((0..8u64).map(|i| (F::from(i * i + 1), F::from(7 * i + 2))).collect());
    t3.push((0..8u64).map(|i| (-F::from(i), F::from(i).inverse().unwrap_or(F::zero()))).collect());
    let mut jobs: Vec<(usize, Vec<usize>, Vec<(F, F)>)> = vec![];
    for k in kind_combos(1) {
        for t in &t1 {
            jobs.push((0, k.clone(), t.clone()));
        }
    }
    for k in kind_combos(2) {
        for t in &t2 {
            jobs.push((1, k.clone(), t.clone()));
            jobs.push((2, k.clone(), t.clone()));
        }
    }
    for k in kind_combos(3) {
        let plain = k.iter().all(|x| *x == 2 || *x == 3);
        for (i, t) in t3.iter().enumerate() {
            if (plain && (wide || i % 4 == 0)) || i % 23 == 0 || i > 255 {
                jobs.push((3, k.clone(), t.clone()));
                jobs.push((4, k.clone(), t.clone()));
            }
        }
    }
    par_for(&jobs, |_, (w, k, t)| match w {
        0 => lookup_check::<F>(ctx, "lookup1_x", k, t, &|c, b, t| Ok(vec![lookup1_x(c.ns(|| "l"), &b[0], &first(t))?]), false),
        1 => lookup_check::<F>(ctx, "lookup2_x", k, t, &|c, b, t| Ok(vec![lookup2_x(c.ns(|| "l"), b, &first(t))?]), false),
        2 => lookup_check::<F>(ctx, "lookup2_xy", k, t, &|c, b, t| lookup2_xy(c.ns(|| "l"), b, t).map(|x| vec![x.0, x.1]), true),
        3 => lookup_check::<F>(ctx, "lookup3_x", k, t, &|c, b, t| Ok(vec![lookup3_x(c.ns(|| "l"), b, &first(t))?]), false),
        _ => lookup_check::<F>(ctx, "lookup3_xy", k, t, &|c, b, t| lookup3_xy(c.ns(|| "l"), b, t).map(|x| vec![x.0, x.1]), true),
    });
}
pub fn d06(ctx: &Ctx) {
    ctx.bound("lookup1/2/3 (x and xy) x all selector kinds (constants, plain, negated, aliased) x tables (all tables over 3 values for 1 and 2 bits, all binary tables plus ramps for 3 bits) x every solution over F3/F7/F31/F127");
    d06_field::<F31>(ctx, &[0, 1, 5], true);
    d06_field::<F7>(ctx, &[0, 1, 6], true);
    d06_field::<F3>(ctx, &[0, 1, 2], true);
    d06_field::<F127>(ctx, &[0, 1, 2, 126], true);
    if ctx.thorough() {
        d06_field::<F7>(ctx, &[0, 1, 2, 3, 4], true);
        d06_field::<F257>(ctx, &[0, 1, 2, 3, 255, 256], true);
    }
}

// ---------------------------------------------------------------- D07
fn range_field<F: PrimeField>(ctx: &Ctx, n: u64) {
    let p = <F::Params as FpParameters>::MODULUS.as_ref()[0];
    let lim = 1u64 << n;
    let mut jobs = vec![];
    for a in 0..lim {
        for b in 0..lim {
            jobs.push((a, b));
        }
    }
    // shape is value independent
    let shape = |a: u64, b: u64| {
        let mut r = Recorder::<F>::new();
        RangeProof { lhs: Some(F::from(a)), rhs: Some(F::from(b)), n }.generate_constraints(&mut r).map(|_| r)
    };
    let base = shape(0, 1).ok().map(|r| r.canonical());
    let mut blank = Recorder::<F>::for_setup();
    let br = guard(|| RangeProof::<F> { lhs: None, rhs: None, n }.generate_constraints(&mut blank));
    ctx.check(matches!(br, Ok(Ok(()))) && Some(blank.canonical()) == base, "blank-synthesis", || format!("n={} F{}", n, p));
    par_for(&jobs, |_, (a, b)| {
        let mut rec = Recorder::<F>::new();
        let r = guard(|| RangeProof { lhs: Some(F::from(*a)), rhs: Some(F::from(*b)), n }.generate_constraints(&mut rec));
        ctx.step(1);
        ctx.state(&(p, n, *a, *b));
        let truth = a < b;
        match r {
            Ok(Ok(())) => {
                ctx.check(rec.sat() == truth, if truth { "honest-comparison-rejected" } else { "false-comparison-satisfied" }, || format!("{} < {} n={} F{}: satisfied {}", a, b, n, p, rec.sat()));
                ctx.check(Some(rec.canonical()) == base, "shape", || format!("{} < {} n={} F{}", a, b, n, p));
            }
            Ok(Err(e)) => {
                ctx.check(!truth, "honest-comparison-refused", || format!("{} < {} n={} F{}: {:?}", a, b, n, p, e));
                return;
            }
            Err(e) => {
                ctx.violate("panic", || format!("{} < {} n={} F{}: {}", a, b, n, p, e));
                return;
            }
        }
        // any witness: A and B are the two first allocated witnesses; publics are fixed by the verifier
        let sys = Sys::of(&rec);
        let mut fixed: Vec<(usize, F)> = (1..sys.ni).map(|i| (i, rec.inputs[i])).collect();
        fixed.push((sys.ni, F::from(*a)));
        fixed.push((sys.ni + 1, F::from(*b)));
        let mut sol = None;
        let nodes = sys.solutions(&fixed, |z| {
            sol = Some(z.to_vec());
            false
        });
        ctx.step(nodes);
        ctx.trace(1);
        ctx.check(sol.is_some() == truth, if truth { "true-comparison-unprovable" } else { "false-comparison-provable" }, || {
            format!("{} < {} n={} F{}: witness {:?}", a, b, n, p, sol.as_ref().map(|z| vs(z)))
        });
        ctx.sample("pair", || format!("{} < {} n={} F{}: {} nodes, satisfiable {}", a, b, n, p, nodes, sol.is_some()));
    });
}
fn nonzero_field<F: PrimeField>(ctx: &Ctx) {
    let p = <F::Params as FpParameters>::MODULUS.as_ref()[0];
    for a in 0..p {
        for input in [false, true] {
            let mut rec = Recorder::<F>::new();
            let v = if input { AllocatedFr::alloc_input(rec.ns(|| "a"), || Ok(F::from(a))) } else { AllocatedFr::alloc(rec.ns(|| "a"), || Ok(F::from(a))) }.unwrap();
            ctx.check(v.get_value() == Some(F::from(a)) && rec.value(v.get_variable()) == F::from(a) && rec.inputs.len() == 1 + input as usize, "AllocatedFr value", || format!("{}", a));
            let r = guard(|| v.isnonzero(rec.ns(|| "nz")));
            ctx.step(1);
            ctx.state(&(p, a, input));
            match r {
                Ok(Ok(())) => {
                    ctx.check(rec.sat() == (a != 0), "isnonzero honest", || format!("{} in F{}", a, p));
                }
                Ok(Err(_)) => {
                    ctx.check(a == 0, "isnonzero refuses", || format!("{} in F{}", a, p));
                }
                Err(e) => ctx.violate("isnonzero panic", || format!("{} in F{}: {}", a, p, e)),
            }
            let shown = rec.canonical();
            // structure from a blank synthesis; any witness
            let mut rec = Recorder::<F>::for_setup();
            let v = if input { AllocatedFr::alloc_input(rec.ns(|| "a"), || Ok(F::one())) } else { AllocatedFr::alloc(rec.ns(|| "a"), || Ok(F::one())) }.unwrap();
            let r = guard(|| v.isnonzero(rec.ns(|| "nz")));
            ctx.check(a == 0 || rec.canonical() == shown, "isnonzero shape", || format!("{} in F{}", a, p));
            if ctx.check(matches!(r, Ok(Ok(()))), "isnonzero blank", || format!("F{}", p)) {
                let sys = Sys::of(&rec);
                let mut any = false;
                ctx.step(sys.solutions(&[(sys.id(v.get_variable()), F::from(a))], |_| {
                    any = true;
                    false
                }));
                ctx.trace(1);
                ctx.check(any == (a != 0), "isnonzero witness", || format!("{} in F{}: satisfiable {}", a, p, any));
            }
            // inputize binds a fresh public input to the value
            let mut rec = Recorder::<F>::new();
            let v = AllocatedFr::alloc(rec.ns(|| "a"), || Ok(F::from(a))).unwrap();
            if let Ok(Ok(())) = guard(|| v.inputize(rec.ns(|| "in"))) {
                let sys = Sys::of(&rec);
                let mut seen = vec![];
                ctx.step(sys.solutions(&[(sys.id(v.get_variable()), F::from(a))], |z| {
                    seen.push(z[1]);
                    true
                }));
                ctx.check(rec.inputs.len() == 2 && rec.sat() && seen == vec![F::from(a)], "inputize", || format!("{} in F{}: {}", a, p, vs(&seen)));
                let mut b = Recorder::<F>::for_setup();
                let v = AllocatedFr::alloc(b.ns(|| "a"), || Err(SynthesisError::AssignmentMissing));
                let r = guard(|| v.and_then(|v| v.inputize(b.ns(|| "in"))));
                ctx.check(matches!(r, Ok(Ok(()))) && b.canonical() == rec.canonical(), "inputize shape", || format!("{} in F{}: {:?}", a, p, r.as_ref().map(|x| x.is_ok())));
            } else {
                ctx.violate("inputize panic", || format!("{}", a));
            }
        }
    }
}
pub fn d07(ctx: &Ctx) {
    ctx.bound("comparison: all pairs below 2^n, n=1..=6 (11 thorough) over F17..F8191 with 2^(n+1) < p, every internal assignment; non-zero: all elements of F3..F257");
    range_field::<F17>(ctx, 1);
    range_field::<F17>(ctx, 2);
    range_field::<F31>(ctx, 1);
    range_field::<F31>(ctx, 2);
    range_field::<F31>(ctx, 3);
    range_field::<F127>(ctx, 2);
    range_field::<F127>(ctx, 3);
    range_field::<F127>(ctx, 4);
    range_field::<F257>(ctx, 5);
    range_field::<F257>(ctx, 6);
    range_field::<F8191>(ctx, 3);
    range_field::<F8191>(ctx, 6);
    if ctx.thorough() {
        range_field::<F8191>(ctx, 7);
        range_field::<F8191>(ctx, 8);
        range_field::<F8191>(ctx, 11);
    }
    nonzero_field::<F3>(ctx);
    nonzero_field::<F5x>(ctx);
    nonzero_field::<F7>(ctx);
    nonzero_field::<F31>(ctx);
    nonzero_field::<F127>(ctx);
    nonzero_field::<F257>(ctx);
    // wide fields: boundary pairs, honest generator and single-variable corruptions
    fn wide<F: PrimeField>(ctx: &Ctx, name: &str, ns: &[u64]) {
        for &n in ns {
            let top = F::from(2u64).pow(&[n]);
            let vals: Vec<(u32, F)> = vec![
                (0, F::zero()),
                (1, F::one()),
                (2, top.double().double().inverse().map(|_| F::from(2u64).pow(&[n / 2])).unwrap()),
                (3, F::from(2u64).pow(&[n - 1])),
                (4, top - F::from(2u64)),
                (5, top - F::one()),
            ];
            for (i, a) in &vals {
                for (j, b) in &vals {
                    let truth = a.into_repr() < b.into_repr();
                    let mut rec = Recorder::<F>::new();
                    let r = guard(|| RangeProof { lhs: Some(*a), rhs: Some(*b), n }.generate_constraints(&mut rec));
                    ctx.step(1);
                    ctx.trace(1);
                    ctx.state(&(name, n, *i, *j));
                    match r {
                        Ok(Ok(())) => {
                            ctx.check(rec.sat() == truth, if truth { "honest-comparison-rejected" } else { "false-comparison-satisfied" }, || format!("{} n={} a#{} b#{}", name, n, i, j));
                            let sys = Sys::of(&rec);
                            let z = Sys::full(&rec);
                            if truth {
                                continue;
                            }
                            // no completion of (A, B, publics)
                            let mut p = sys.start();
                            for k in 1..sys.ni + 2 {
                                p.val[k] = Some(z[k]);
                            }
                            ctx.check(!sys.propagate(&mut p, None, None) || !two_valued_solution(&sys, p, 14), "false-comparison-provable", || format!("{} n={} a#{} b#{}", name, n, i, j));
                        }
                        Ok(Err(e)) => {
                            ctx.check(!truth, "honest-comparison-refused", || format!("{} n={} a#{} b#{}: {:?}", name, n, i, j, e));
                        }
                        Err(e) => ctx.violate("panic", || format!("{} n={} a#{} b#{}: {}", name, n, i, j, e)),
                    }
                }
            }
        }
    }
    wide::<FBig>(ctx, "FBig", &(4..=58).collect::<Vec<_>>());
    wide::<ark_bls12_381::Fr>(ctx, "Fr", &ctx.b((4..=252).step_by(8).chain([31, 33, 63, 65, 127, 252]).collect::<Vec<_>>(), (4..=252).collect()));
    ctx.bound("61-bit and 255-bit fields: boundary pairs for n in 4..=58 and 4..=252 (quick: every eighth and next to multiples of 64)");
}
/// depth-first over the two-valued unknowns; true if an assignment survives with all values fixed
pub fn two_valued_solution<F: PrimeField>(sys: &Sys<F>, p: Part<F>, depth: usize) -> bool {
    match (0..sys.n).find(|v| p.val[*v].is_none() && p.dom[*v].is_some()) {
        None => {
            if p.val.iter().all(|x| x.is_some()) {
                let z: Vec<F> = p.val.iter().map(|x| x.unwrap()).collect();
                sys.sat(&z)
            } else {
                false
            }
        }
        Some(_) if depth == 0 => false,
        Some(v) => {
            let (a, b) = p.dom[v].unwrap();
            [a, b].iter().any(|x| {
                let mut q = p.clone();
                q.val[v] = Some(*x);
                sys.propagate(&mut q, Some(v), None) && two_valued_solution(sys, q, depth - 1)
            })
        }
    }
}
