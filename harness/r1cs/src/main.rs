use ark_ff::{One, PrimeField, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use mccore::toy::*;
use mccore::*;
use std::collections::{BTreeMap, HashSet};
use zkp_r1cs::{ConstraintSynthesizer, ConstraintSystem, ConstraintVar, Index, LinearCombination, SynthesisError, Variable};

type F = F31;
type Lc = LinearCombination<F>;
type M = BTreeMap<(u8, usize), F>;

fn key(v: Variable) -> (u8, usize) {
    match v.get_unchecked() {
        Index::Input(i) => (0, i),
        Index::Aux(i) => (1, i),
    }
}
fn meaning(l: &Lc) -> M {
    let mut m = M::new();
    for (v, c) in l.as_ref() {
        *m.entry(key(*v)).or_insert(F::zero()) += *c;
    }
    m.retain(|_, v| !v.is_zero());
    m
}
fn madd(a: &M, b: &M, k: F) -> M {
    let mut m = a.clone();
    for (v, c) in b {
        *m.entry(*v).or_insert(F::zero()) += k * c;
    }
    m.retain(|_, v| !v.is_zero());
    m
}
fn repr(l: &Lc) -> Vec<(u8, usize, u64)> {
    l.as_ref().iter().map(|(v, c)| (key(*v).0, key(*v).1, val(c))).collect()
}
fn var(i: usize) -> Variable {
    // interleave inputs and auxiliaries
    Variable::new_unchecked(if i % 2 == 0 { Index::Input(i / 2) } else { Index::Aux(i / 2) })
}
fn cv_lc(c: ConstraintVar<F>) -> Lc {
    match c {
        ConstraintVar::LC(l) => l,
        ConstraintVar::Var(v) => v.into(),
    }
}

fn r01(ctx: &Ctx) {
    let nv = ctx.b(4, 5);
    // pool of second operands, with repeated variables and every length class around the
    // representation switch
    let mut pool: Vec<Lc> = vec![Lc::zero()];
    for (n, dup) in [(1usize, 0usize), (2, 0), (3, 2), (5, 0), (5, 3), (6, 0), (7, 0), (9, 0), (17, 0), (18, 5)] {
        let mut l = Lc::zero();
        for i in 0..n {
            l = l + (F::from((i + 1) as u64), var((i * 5 + 3) % 18));
        }
        for i in 0..dup {
            l = l + (F::from((i + 11) as u64), var((i * 5 + 3) % 18));
        }
        pool.push(l);
    }
    let scalars: Vec<F> = [0u64, 1, 2, 30, 7].iter().map(|x| F::from(*x)).collect();
    // successors: every public operation on a state
    let succ = |s: &Lc, m: &M| -> Vec<(String, Result<Lc, String>, M)> {
        let mut out = vec![];
        let mut go = |n: String, f: &dyn Fn() -> Lc, m: M| out.push((n, guard(|| f()), m));
        for i in 0..nv {
            let v = var(i);
            let one: M = [(key(v), F::one())].into_iter().collect();
            go(format!("+v{}", i), &|| s.clone() + v, madd(m, &one, F::one()));
            go(format!("-v{}", i), &|| s.clone() - v, madd(m, &one, -F::one()));
            for c in [F::from(3u64), F::zero()] {
                go(format!("+({},v{})", c, i), &|| s.clone() + (c, v), madd(m, &one, c));
                go(format!("-({},v{})", c, i), &|| s.clone() - (c, v), madd(m, &one, -c));
                go(format!("+=({},v{})", c, i), &|| { let mut t = s.clone(); t += (c, v); t }, madd(m, &one, c));
                go(format!("cv+({},v)", i), &|| cv_lc(ConstraintVar::from(s.clone()) + (c, v)), madd(m, &one, c));
                go(format!("cv-({},v)", i), &|| cv_lc(ConstraintVar::from(s.clone()) - (c, v)), madd(m, &one, -c));
                go(format!("cv+=({},v)", i), &|| { let mut t = ConstraintVar::from(s.clone()); t += (c, v); cv_lc(t) }, madd(m, &one, c));
            }
            go(format!("cv+v{}", i), &|| cv_lc(ConstraintVar::from(s.clone()) + v), madd(m, &one, F::one()));
            go(format!("cv-v{}", i), &|| cv_lc(ConstraintVar::from(s.clone()) - v), madd(m, &one, -F::one()));
            // a variable as left operand
            go(format!("cv(v{})+lc", i), &|| ConstraintVar::<F>::from(v) + s.clone(), madd(m, &one, F::one()));
            go(format!("cv(v{})-lc", i), &|| ConstraintVar::<F>::from(v) - s.clone(), madd(&one, m, -F::one()));
            go(format!("&cv(v{})+lc", i), &|| &ConstraintVar::<F>::from(v) + s.clone(), madd(m, &one, F::one()));
            go(format!("&cv(v{})-lc", i), &|| &ConstraintVar::<F>::from(v) - s.clone(), madd(&one, m, -F::one()));
            let w = var((i + 1) % nv);
            let two: M = madd(&one, &[(key(w), F::one())].into_iter().collect(), F::one());
            go(format!("cv(v)+=w"), &|| s + &cv_lc(ConstraintVar::<F>::from(v) + w), madd(m, &two, F::one()));
            go(format!("-cv(v)"), &|| s + &cv_lc(-ConstraintVar::<F>::from(v)), madd(m, &one, -F::one()));
            go(format!("cv(v)*7"), &|| s + &cv_lc(ConstraintVar::<F>::from(v) * F::from(7u64)), madd(m, &one, F::from(7u64)));
            go(format!("cv(v)*=7"), &|| { let mut t = ConstraintVar::<F>::from(v); t *= F::from(7u64); s + &cv_lc(t) }, madd(m, &one, F::from(7u64)));
            go(format!("cv(v).double"), &|| { let mut t = ConstraintVar::<F>::from(v); t.double_in_place(); s + &cv_lc(t) }, madd(m, &one, F::from(2u64)));
            go(format!("cv(v).neg"), &|| { let mut t = ConstraintVar::<F>::from(v); t.negate_in_place(); s + &cv_lc(t) }, madd(m, &one, -F::one()));
            go(format!("(9,cv(v))"), &|| s + &cv_lc(ConstraintVar::from((F::from(9u64), ConstraintVar::<F>::from(v)))), madd(m, &one, F::from(9u64)));
            go(format!("from(c,v)"), &|| s + &Lc::from((F::from(9u64), v)), madd(m, &one, F::from(9u64)));
            go(format!("from v"), &|| s - &Lc::from(v), madd(m, &one, -F::one()));
        }
        for c in &scalars {
            let c = *c;
            let z = M::new();
            go(format!("*{}", c), &|| s.clone() * c, madd(&z, m, c));
            go(format!("*={}", c), &|| { let mut t = s.clone(); t *= c; t }, madd(&z, m, c));
            go(format!("cv*{}", c), &|| cv_lc(ConstraintVar::from(s.clone()) * c), madd(&z, m, c));
            go(format!("cv*={}", c), &|| { let mut t = ConstraintVar::from(s.clone()); t *= c; cv_lc(t) }, madd(&z, m, c));
            go(format!("cv from({},lc)", c), &|| cv_lc(ConstraintVar::from((c, s.clone()))), madd(&z, m, c));
            go(format!("cv from({},cv)", c), &|| cv_lc(ConstraintVar::from((c, ConstraintVar::from(s.clone())))), madd(&z, m, c));
        }
        let neg = madd(&M::new(), m, -F::one());
        let dbl = madd(m, m, F::one());
        go("neg".into(), &|| -s.clone(), neg.clone());
        go("cv neg".into(), &|| cv_lc(-ConstraintVar::from(s.clone())), neg.clone());
        go("negate_in_place".into(), &|| { let mut t = s.clone(); t.negate_in_place(); t }, neg.clone());
        go("cv negate_in_place".into(), &|| { let mut t = ConstraintVar::from(s.clone()); t.negate_in_place(); cv_lc(t) }, neg.clone());
        go("double_in_place".into(), &|| { let mut t = s.clone(); t.double_in_place(); t }, dbl.clone());
        go("cv double_in_place".into(), &|| { let mut t = ConstraintVar::from(s.clone()); t.double_in_place(); cv_lc(t) }, dbl);
        for (k, o) in pool.iter().enumerate() {
            let om = meaning(o);
            let (p, n, r) = (madd(m, &om, F::one()), madd(m, &om, -F::one()), madd(&om, m, -F::one()));
            go(format!("replace #{}", k), &|| { let mut t = s.clone(); t.replace_in_place(o.clone()); t }, om.clone());
            go(format!("&+& #{}", k), &|| s + o, p.clone());
            go(format!("&+ #{}", k), &|| s + o.clone(), p.clone());
            go(format!("+& #{}", k), &|| s.clone() + o, p.clone());
            go(format!("+ #{}", k), &|| s.clone() + o.clone(), p.clone());
            go(format!("&-& #{}", k), &|| s - o, n.clone());
            go(format!("&- #{}", k), &|| s - o.clone(), n.clone());
            go(format!("-& #{}", k), &|| s.clone() - o, n.clone());
            go(format!("- #{}", k), &|| s.clone() - o.clone(), n.clone());
            go(format!("rev &-& #{}", k), &|| o - s, r.clone());
            go(format!("rev - #{}", k), &|| o.clone() - s.clone(), r.clone());
            let cs = ConstraintVar::from(s.clone());
            let co = ConstraintVar::from(o.clone());
            go(format!("cv+&cv #{}", k), &|| cv_lc(cs.clone() + &co), p.clone());
            go(format!("cv-&cv #{}", k), &|| cv_lc(cs.clone() - &co), n.clone());
            go(format!("&cv+&cv #{}", k), &|| cv_lc(&cs + &co), p.clone());
            go(format!("&cv-&cv #{}", k), &|| cv_lc(&cs - &co), n.clone());
            go(format!("cv+lc #{}", k), &|| cs.clone() + o.clone(), p.clone());
            go(format!("cv-lc #{}", k), &|| cs.clone() - o.clone(), n.clone());
            go(format!("&cv+lc #{}", k), &|| &cs + o.clone(), p.clone());
            go(format!("&cv-lc #{}", k), &|| &cs - o.clone(), n.clone());
            for c in [F::from(5u64), F::zero(), F::one()] {
                let (p, n) = (madd(m, &om, c), madd(m, &om, -c));
                go(format!("&+({},&) #{}", c, k), &|| s + (c, o), p.clone());
                go(format!("+({},&) #{}", c, k), &|| s.clone() + (c, o), p.clone());
                go(format!("&+({},) #{}", c, k), &|| s + (c, o.clone()), p.clone());
                go(format!("+({},) #{}", c, k), &|| s.clone() + (c, o.clone()), p.clone());
                go(format!("&-({},&) #{}", c, k), &|| s - (c, o), n.clone());
                go(format!("-({},&) #{}", c, k), &|| s.clone() - (c, o), n.clone());
                go(format!("&-({},) #{}", c, k), &|| s - (c, o.clone()), n.clone());
                go(format!("-({},) #{}", c, k), &|| s.clone() - (c, o.clone()), n.clone());
                go(format!("cv+({},&cv) #{}", c, k), &|| cv_lc(cs.clone() + (c, &co)), p.clone());
                go(format!("cv-({},&cv) #{}", c, k), &|| cv_lc(cs.clone() - (c, &co)), n.clone());
            }
        }
        // variable-form constraint vars against the state
        let v = var(2);
        let vm: M = [(key(v), F::one())].into_iter().collect();
        let cs = ConstraintVar::from(s.clone());
        let cvv = ConstraintVar::<F>::from(v);
        go("cv+&var".into(), &|| cv_lc(cs.clone() + &cvv), madd(m, &vm, F::one()));
        go("cv-&var".into(), &|| cv_lc(cs.clone() - &cvv), madd(m, &vm, -F::one()));
        go("var+&cv".into(), &|| cv_lc(cvv.clone() + &cs), madd(m, &vm, F::one()));
        go("var-&cv".into(), &|| cv_lc(cvv.clone() - &cs), madd(&vm, m, -F::one()));
        go("&var+&cv".into(), &|| cv_lc(&cvv + &cs), madd(m, &vm, F::one()));
        go("&var-&cv".into(), &|| cv_lc(&cvv - &cs), madd(&vm, m, -F::one()));
        go("&cv-&var".into(), &|| cv_lc(&cs - &cvv), madd(m, &vm, -F::one()));
        go("cv+(6,&var)".into(), &|| cv_lc(cs.clone() + (F::from(6u64), &cvv)), madd(m, &vm, F::from(6u64)));
        go("cv-(6,&var)".into(), &|| cv_lc(cs.clone() - (F::from(6u64), &cvv)), madd(m, &vm, -F::from(6u64)));
        go("var+(6,&cv)".into(), &|| cv_lc(cvv.clone() + (F::from(6u64), &cs)), madd(&vm, m, F::from(6u64)));
        go("var-(6,&cv)".into(), &|| cv_lc(cvv.clone() - (F::from(6u64), &cs)), madd(&vm, m, -F::from(6u64)));
        out
    };
    // breadth-first over implementation states (identified by their term lists)
    let mut seen: HashSet<Vec<(u8, usize, u64)>> = HashSet::new();
    let mut frontier: Vec<Lc> = vec![];
    for s in [Lc::zero()].into_iter().chain(pool.iter().cloned()) {
        if seen.insert(repr(&s)) {
            frontier.push(s);
        }
    }
    let depth = ctx.b(3, 4);
    let cap = ctx.b(60_000, 1_500_000);
    ctx.bound(format!("all histories of up to {} operations (every operator form, {} variables, {} operand combinations) from {} start states", depth, nv, pool.len(), pool.len()));
    let mut truncated = false;
    for d in 0..depth {
        let next: std::sync::Mutex<Vec<(Vec<(u8, usize, u64)>, Lc)>> = Default::default();
        let last = d + 1 == depth;
        par_for(&frontier, |_, s| {
            let m = meaning(s);
            let mut loc = vec![];
            let ss = succ(s, &m);
            ctx.step(ss.len() as u64);
            ctx.trace(ss.len() as u64);
            for (op, r, want) in ss {
                match r {
                    Ok(l) => {
                        let got = meaning(&l);
                        if got != want {
                            let o: String = op.chars().filter(|c| !c.is_ascii_digit()).collect();
                            ctx.violate(&format!("wrong-meaning {}", o.split('#').next().unwrap()), || format!("state {:?}; op {}; got {:?}; want {:?}", repr(s), op, repr(&l), want));
                        }
                        if !last {
                            loc.push((repr(&l), l));
                        }
                    }
                    Err(e) => ctx.violate("operator-panics", || format!("state {:?} op {}: {}", repr(s), op, e)),
                }
            }
            next.lock().unwrap().extend(loc);
        });
        let mut nf = vec![];
        let mut nx = next.into_inner().unwrap();
        nx.sort_by(|a, b| a.0.cmp(&b.0));
        for (k, l) in nx {
            if seen.insert(k) {
                nf.push(l);
            }
        }
        ctx.count(&format!("layer {} new states", d + 1), nf.len() as u64);
        if nf.len() > cap {
            truncated = true;
            nf.truncate(cap);
        }
        frontier = nf;
    }
    ctx.states_bulk(seen.iter().map(|s| h64(s)).collect());
    if truncated {
        ctx.capped();
        ctx.bound(format!("layers cut at {} states", cap));
    }
    ctx.sample("state", || format!("{:?}", repr(&pool[5])));

    // long accumulations: every permutation pattern of inserting k of 20 variables repeatedly
    for n in 0..ctx.b(40usize, 80) {
        for stride in [1usize, 3, 7, 11, 13, 19] {
            for modv in [5usize, 6, 7, 16, 17, 20] {
                let mut l = Lc::zero();
                let mut m = M::new();
                for i in 0..n {
                    let v = var((i * stride) % modv);
                    let c = F::from((i * 3 + 1) as u64);
                    l = if i % 3 == 0 { l - (c, v) } else { l + (c, v) };
                    m = madd(&m, &[(key(v), F::one())].into_iter().collect(), if i % 3 == 0 { -c } else { c });
                }
                ctx.trace(1);
                ctx.step(n as u64);
                ctx.state(&repr(&l));
                ctx.check(meaning(&l) == m, "wrong-meaning accumulation", || format!("n={} stride={} mod={}", n, stride, modv));
            }
        }
    }
    indices(ctx);
    plumbing(ctx);
}

fn indices(ctx: &Ctx) {
    let vals: Vec<usize> = (0..300).chain([u32::MAX as usize - 1, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX - 1, usize::MAX]).collect();
    let mut enc: HashSet<Vec<u8>> = HashSet::new();
    let mut all = vec![];
    for &i in &vals {
        for x in [Index::Input(i), Index::Aux(i)] {
            let mut b = vec![];
            let r = flat(guard(|| x.serialize(&mut b)));
            ctx.step(1);
            ctx.trace(1);
            ctx.state(&b);
            ctx.check(r.is_ok() && x.serialized_size() == b.len(), "index-size", || format!("{:?}: {:?}", x, b));
            ctx.check(enc.insert(b.clone()), "index-encoding-collides", || format!("{:?}", x));
            match flat(guard(|| Index::deserialize(&b[..]))) {
                Ok(y) => {
                    ctx.check(y == x, "index-roundtrip", || format!("{:?} -> {:?}", x, y));
                }
                Err(e) => ctx.violate("index-roundtrip", || format!("{:?}: {}", x, e)),
            }
            for t in 0..b.len() {
                ctx.check(!matches!(guard(|| Index::deserialize(&b[..t])), Ok(Ok(_))), "index-truncated-accepted", || format!("{:?} cut at {}", x, t));
            }
            all.push(x);
        }
    }
    // ordering is total, inputs before auxiliaries, by number
    for a in all.iter().step_by(7) {
        for b in all.iter().step_by(3) {
            let k = |i: &Index| match i {
                Index::Input(n) => (0u8, *n),
                Index::Aux(n) => (1u8, *n),
            };
            ctx.check(a.cmp(b) == k(a).cmp(&k(b)) && (a == b) == (k(a) == k(b)), "index-order", || format!("{:?} {:?}", a, b));
            ctx.step(1);
        }
    }
}

/// a circuit interpreting a script of plumbing operations
#[derive(Clone)]
struct Script(Vec<u8>);
impl ConstraintSynthesizer<F> for Script {
    fn generate_constraints<CS: ConstraintSystem<F>>(self, cs: &mut CS) -> Result<(), SynthesisError> {
        let mut vars = vec![CS::one()];
        let mut pos = 0;
        while pos < self.0.len() {
            run_top(cs, &self.0, &mut pos, &mut vars)?;
        }
        Ok(())
    }
}
// two explicit levels of wrapping keep monomorphisation finite
fn run_top<CS: ConstraintSystem<F>>(cs: &mut CS, ops: &[u8], pos: &mut usize, vars: &mut Vec<Variable>) -> Result<(), SynthesisError> {
    while *pos < ops.len() {
        match ops[*pos] {
            3 => {
                *pos += 1;
                let mut n = cs.ns(|| "n");
                run_mid(&mut n, ops, pos, vars)?;
            }
            4 => {
                *pos += 1;
                let mut r = &mut *cs;
                run_leaf(&mut r, ops, pos, vars)?;
            }
            5 => *pos += 1,
            _ => {
                let e = *pos + 1;
                run_leaf(cs, &ops[..e], pos, vars)?;
            }
        }
    }
    Ok(())
}
fn run_mid<CS: ConstraintSystem<F>>(cs: &mut CS, ops: &[u8], pos: &mut usize, vars: &mut Vec<Variable>) -> Result<(), SynthesisError> {
    while *pos < ops.len() {
        match ops[*pos] {
            3 => {
                *pos += 1;
                let mut n = cs.ns(|| "m");
                run_leaf(&mut n, ops, pos, vars)?;
            }
            4 => {
                *pos += 1;
                let mut r = &mut *cs;
                run_leaf(&mut r, ops, pos, vars)?;
            }
            5 => {
                *pos += 1;
                return Ok(());
            }
            _ => {
                let e = *pos + 1;
                run_leaf(cs, &ops[..e], pos, vars)?;
            }
        }
    }
    Ok(())
}
fn run_leaf<CS: ConstraintSystem<F>>(cs: &mut CS, ops: &[u8], pos: &mut usize, vars: &mut Vec<Variable>) -> Result<(), SynthesisError> {
    while *pos < ops.len() {
        let before = cs.num_constraints();
        let o = ops[*pos];
        match o {
            0 | 1 => {
                let k = vars.len() as u64;
                let v = if o == 0 { cs.alloc(|| "a", || Ok(F::from(k)))? } else { cs.alloc_input(|| "i", || Ok(F::from(k)))? };
                vars.push(v);
            }
            2 => {
                let n = vars.len();
                let (x, y) = (vars[n - 1], vars[n / 2]);
                cs.enforce(|| "e", |lc| lc + x, |lc| lc + (F::from(2u64), y), |lc| lc - CS::one());
                if cs.num_constraints() != before + 1 {
                    return Err(SynthesisError::Unsatisfiable);
                }
            }
            5 => {
                *pos += 1;
                return Ok(());
            }
            _ => {}
        }
        *pos += 1;
    }
    Ok(())
}
fn plumbing(ctx: &Ctx) {
    let len = ctx.b(6, 8);
    ctx.bound(format!("all {}^<= {} scripts of alloc/alloc_input/enforce/namespace/reference/leave", 6, len));
    let mut scripts: Vec<Vec<u8>> = vec![];
    for l in 0..=len {
        scripts.extend(tuples(&[0u8, 1, 2, 3, 4, 5], l));
    }
    par_for(&scripts, |_, s| {
        let mut rec: Recorder<F> = Recorder::new();
        let r = flat(guard(|| Script(s.clone()).generate_constraints(&mut rec)));
        ctx.step(s.len() as u64);
        ctx.trace(1);
        // model: the flat effect of the script
        let (mut ni, mut na) = (1usize, 0usize);
        let mut vars: Vec<(u8, usize)> = vec![(0, 0)];
        let mut vals = vec![F::one()];
        let mut cons = vec![];
        for o in s {
            match o {
                0 => { vals.push(F::from(vars.len() as u64)); vars.push((1, na)); na += 1; }
                1 => { vals.push(F::from(vars.len() as u64)); vars.push((0, ni)); ni += 1; }
                2 => { let n = vars.len(); cons.push((vars[n - 1], vars[n / 2])); }
                _ => {}
            }
        }
        let want: Vec<Vec<Vec<(u8, usize, F)>>> = cons.iter().map(|(x, y)| vec![vec![(x.0, x.1, F::one())], vec![(y.0, y.1, F::from(2u64))], vec![(0, 0, -F::one())]]).collect();
        let got = rec.canonical();
        let ok = r.is_ok()
            && rec.inputs.len() == ni && rec.aux.len() == na
            && rec.ns_depth() == 0 && !rec.ns_underflow
            && got == want.concat()
            && vars.iter().zip(&vals).all(|(v, x)| if v.0 == 0 { rec.inputs[v.1] == *x } else { rec.aux[v.1] == *x });
        ctx.check(ok, "plumbing", || format!("script {:?}: result {:?}, namespaces left {}, underflow {}", s, r, rec.ns_depth(), rec.ns_underflow));
        ctx.state(&(s.clone(), rec.inputs.len(), rec.cons.len()));
    });
    let _ = F::size_in_bits();
}

fn main() {
    run_main(&[("R01", r01)]);
}
