//! Verifiers return a verdict whatever they are given.
use mc_bulletproofs::Bp;
use mc_groth16::Groth;
use mc_hyrax::Hyrax;
use mc_libra as li;
use mc_marlin::Marlin;
use mc_plonk::Compiled;
use mc_spartan::{Nizk, Snark};
use mccore::toy::*;
use mccore::*;
use mcfs::{fixed, Subject};
use merlin::mc::scripted;

type F = FBig;
/// two list alterations at once, on small statements
fn double<S: Scheme<F>>(ctx: &Ctx, s: &S, cases: &[Case<F>]) {
    par_for(cases, |_, c| {
        let (k, sch) = match (s.setup(c, 1), s.schema()) {
            (Ok(k), Some(sch)) => (k, Sch::parse(sch)),
            _ => return,
        };
        let pr = match s.prove(&k, c, &c.public, &c.aux, 2) {
            Ok(p) => p,
            Err(_) => return,
        };
        let t = match sch.decode(&s.bytes(&pr)) {
            Some(t) => t,
            None => return,
        };
        for (w, t1) in t.restructured() {
            for (x, t2) in t1.restructured() {
                let b = t2.encode();
                ctx.step(1);
                let p2 = match guard(|| s.parse(&pr, &b)) {
                    Ok(Some(p)) => p,
                    Ok(None) => continue,
                    Err(e) => {
                        ctx.violate(&format!("decoder-crash {}", site(&e)), || format!("{}: {} and {}: {}", c.show(), w, x, e));
                        continue;
                    }
                };
                ctx.trace(1);
                if let Verdict::Crash(e) = s.verify(&k, &p2, &c.public) {
                    ctx.violate(&format!("verifier-crash {}", site(&e)), || format!("{}: {} and {}: {}", c.show(), w, x, e));
                }
            }
            ctx.state(&(c.name.as_str(), w.as_str(), "double"));
        }
    });
}
fn scheme<S: Scheme<F>>(ctx: &Ctx, s: &S, cases: &[Case<F>], two: usize) {
    soundness(ctx, s, cases, &[1], &Sound { watch: Watch::Crashes, bad_witness: false, bad_public: true, tamper: true, max_tamper: usize::MAX });
    let small: Vec<Case<F>> = (0..SHAPES).flat_map(|k| [(1, 1), (3, 2)].iter().map(move |(n, p)| shaped::<F>(k, *n, *p, 0)).collect::<Vec<_>>()).take(two).collect();
    double(ctx, s, &small);
}
/// A prover who sends malformed messages before the challenges are drawn meets challenges that fit
/// them: the same alterations, with the challenges held fixed, pass every check they can pass.
fn adaptive(ctx: &Ctx, subjects: &[(String, Subject<F>)]) {
    par_for(subjects, |_, (k, s)| {
        let scheme = k.split(' ').next().unwrap();
        let b = match scripted(fixed(77, None), || (s.prove)(5)) {
            Ok(b) => b,
            Err(_) => {
                ctx.count("prover refused honest witness", 1);
                return;
            }
        };
        let v = scripted(fixed(77, None), || (s.verify)(&b, &s.publics));
        if !v.acc() {
            ctx.count("scripted honest run not accepted", 1);
            return;
        }
        let mut ms: Vec<(String, Vec<u8>)> = mutations(&b, ctx.b(400, usize::MAX));
        match Sch::parse(s.schema).decode(&b) {
            Some(t) => ms.extend(t.restructured().into_iter().map(|(w, t)| (w, t.encode()))),
            None => ctx.count("proof does not match its schema", 1),
        }
        let mut tries: Vec<(String, Vec<u8>, Vec<F>)> = ms.into_iter().map(|(w, m)| (w, m, s.publics.clone())).collect();
        for p in perturb(&s.publics) {
            tries.push((format!("statement {}", vs(&p)), b.clone(), p));
        }
        for (w, m, p) in tries {
            ctx.step(1);
            ctx.trace(1);
            ctx.state(&(k, w.as_str()));
            let v = guard(|| scripted(fixed(77, None), || (s.verify)(&m, &p))).unwrap_or_else(Verdict::Crash);
            if let Verdict::Crash(e) = v {
                ctx.violate(&format!("verifier-crash {} {}", scheme, site(&e)), || format!("{}: {} (sent before the challenges): {}", s.name, w, e));
            }
        }
    });
    ctx.bound(format!("{} statements: the same alterations with the challenges held fixed", subjects.len()));
}
pub fn v01(ctx: &Ctx) {
    ctx.assume("toy groups over a 61-bit field; every group decoder of the toy groups accepts every reduced word, so malformed points do not occur (they are rejected by the curve crates' decoders)");
    let cs = sweep::<F>(ctx.b(2, 5), &[0, 1, 2, 3]);
    let few = sweep::<F>(ctx.b(1, 3), &[0, 1, 2]);
    scheme(ctx, &Groth::<EBig>::new(), &cs, 0);
    scheme(ctx, &Marlin::<EBig>::new(), &cs, ctx.b(4, 16));
    scheme(ctx, &Bp, &cs, ctx.b(4, 16));
    scheme(ctx, &Compiled, &cs, ctx.b(4, 16));
    scheme(ctx, &Nizk, &few, ctx.b(1, 6));
    scheme(ctx, &Snark, &few, ctx.b(0, 1));
    ctx.bound(format!("groth16, marlin, bulletproofs, plonk on {} and spartan on {} relations: every single-byte and word mutation, every list alteration (pairs of them on small statements), every changed, missing or extra public input", cs.len(), few.len()));
    let o = LSound { max_tamper: usize::MAX, crashes: true };
    let w: &[usize] = ctx.b(&[1, 3], &[1, 2, 3, 5]);
    let ls: Vec<LCase<F>> = patterned(&[(1, 1), (2, 1), (0, 2)], w, 2, 1).iter().map(|c| values(c, 1, 0)).collect();
    l_sound(ctx, &li::Plain, &ls, &o);
    l_sound(ctx, &li::Zk::new(), &ls, &o);
    let l2: Vec<LCase<F>> = ls.iter().flat_map(|c| [values(&c.c, 1, 0), values(&c.c, 2, 1)]).collect();
    l_sound(ctx, &Hyrax::new(), &l2, &o);
    ctx.bound(format!("libra (plain and zero-knowledge) on {} and hyrax on {} layered circuits, likewise", ls.len(), l2.len()));
    adaptive(ctx, &crate::fs::subjects(ctx.b(0, 1)));
}
