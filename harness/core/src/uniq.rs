//! Exhaustive search over the assignments of a synthesised constraint system.
//!
//! The values of some variables are fixed; every assignment of the others is explored depth
//! first, pruned by forced values (a constraint with one unknown, a packed sum of boolean
//! unknowns). In small fields the search is complete: every field element is a branch. In large
//! fields only finitely-valued unknowns are branched on exhaustively; when nothing is left to
//! branch on, the remaining unknowns are the freedom of the prover and are probed directly.
use crate::circuit::Recorder;
use ark_ff::{BigInteger, FpParameters, PrimeField};
use zkp_r1cs::{Index, Variable};

pub struct Sys<F: PrimeField> {
    pub ni: usize,
    pub n: usize,
    pub cons: Vec<[Vec<(usize, F)>; 3]>,
    by_var: Vec<Vec<u32>>,
}
#[derive(Clone)]
pub struct Part<F: PrimeField> {
    pub val: Vec<Option<F>>,
    pub dom: Vec<Option<(F, F)>>,
}
pub fn vid<F: PrimeField>(ni: usize, v: Variable) -> usize {
    match v.get_unchecked() {
        Index::Input(k) => k,
        Index::Aux(k) => ni + k,
    }
}
fn sqrt_roots<F: PrimeField>(a: F, b: F, c: F, hint: Option<F>) -> Option<Vec<F>> {
    // roots of a x^2 + b x + c, a != 0
    // (x = hint is tried first so that the other root follows by Vieta)
    let f = |x: F| a * x * x + b * x + c;
    let mut cand = vec![F::zero(), F::one()];
    if let Some(h) = hint {
        cand.push(h);
    }
    for x in cand {
        if f(x).is_zero() {
            let other = -b * a.inverse().unwrap() - x;
            return Some(if other == x { vec![x] } else { vec![x, other] });
        }
    }
    if <F::Params as FpParameters>::MODULUS_BITS <= 14 {
        let m = <F::Params as FpParameters>::MODULUS.as_ref()[0];
        return Some((0..m).map(F::from).filter(|x| f(*x).is_zero()).collect());
    }
    None
}
pub enum Det<F: PrimeField> {
    Determined,
    /// another full satisfying assignment that differs on an output
    Second(Vec<F>),
    /// the outputs are not forced, but no second assignment was found
    Undecided(usize),
}
impl<F: PrimeField> Sys<F> {
    pub fn of(r: &Recorder<F>) -> Sys<F> {
        let ni = r.inputs.len();
        let n = ni + r.aux.len();
        let g = |l: &Vec<(Index, F)>| {
            let mut v: Vec<(usize, F)> = l
                .iter()
                .map(|(i, c)| {
                    (
                        match i {
                            Index::Input(k) => *k,
                            Index::Aux(k) => ni + *k,
                        },
                        *c,
                    )
                })
                .collect();
            v.sort_by_key(|x| x.0);
            let mut o: Vec<(usize, F)> = Vec::with_capacity(v.len());
            for (i, c) in v {
                match o.last_mut() {
                    Some(l) if l.0 == i => l.1 += c,
                    _ => o.push((i, c)),
                }
            }
            o.retain(|x| !x.1.is_zero());
            o
        };
        let cons: Vec<_> = r.cons.iter().map(|c| [g(&c[0]), g(&c[1]), g(&c[2])]).collect();
        let mut by_var = vec![vec![]; n];
        for (k, c) in cons.iter().enumerate() {
            for l in c.iter() {
                for (v, _) in l {
                    let b: &mut Vec<u32> = &mut by_var[*v];
                    if b.last() != Some(&(k as u32)) {
                        b.push(k as u32);
                    }
                }
            }
        }
        Sys { ni, n, cons, by_var }
    }
    pub fn full(r: &Recorder<F>) -> Vec<F> {
        r.inputs.iter().chain(r.aux.iter()).cloned().collect()
    }
    pub fn id(&self, v: Variable) -> usize {
        vid::<F>(self.ni, v)
    }
    pub fn sat(&self, z: &[F]) -> bool {
        let e = |l: &Vec<(usize, F)>| l.iter().fold(F::zero(), |a, (v, c)| a + z[*v] * c);
        self.cons.iter().all(|c| e(&c[0]) * e(&c[1]) == e(&c[2]))
    }
    pub fn start(&self) -> Part<F> {
        let mut p = Part { val: vec![None; self.n], dom: vec![None; self.n] };
        p.val[0] = Some(F::one());
        p
    }
    fn split(&self, l: &[(usize, F)], p: &Part<F>) -> (F, Vec<(usize, F)>) {
        let mut k = F::zero();
        let mut u = vec![];
        for (v, c) in l {
            match p.val[*v] {
                Some(x) => k += x * c,
                None => u.push((*v, *c)),
            }
        }
        (k, u)
    }
    /// Forced consequences; false = contradiction.
    pub fn propagate(&self, p: &mut Part<F>, dirty: Option<usize>, hint: Option<&[F]>) -> bool {
        let mut queue: Vec<u32> = match dirty {
            Some(v) => self.by_var[v].clone(),
            None => (0..self.cons.len() as u32).rev().collect(),
        };
        let mut inq = vec![false; self.cons.len()];
        for q in &queue {
            inq[*q as usize] = true;
        }
        while let Some(k) = queue.pop() {
            inq[k as usize] = false;
            let mut changed: Vec<usize> = vec![];
            if !self.step(&self.cons[k as usize], p, hint, &mut changed) {
                return false;
            }
            for v in changed {
                for q in &self.by_var[v] {
                    if !inq[*q as usize] {
                        inq[*q as usize] = true;
                        queue.push(*q);
                    }
                }
            }
        }
        true
    }
    fn assign(p: &mut Part<F>, v: usize, x: F, ch: &mut Vec<usize>) -> bool {
        if let Some((a, b)) = p.dom[v] {
            if x != a && x != b {
                return false;
            }
        }
        p.val[v] = Some(x);
        ch.push(v);
        true
    }
    fn step(&self, c: &[Vec<(usize, F)>; 3], p: &mut Part<F>, hint: Option<&[F]>, ch: &mut Vec<usize>) -> bool {
        let (ka, ua) = self.split(&c[0], p);
        let (kb, ub) = self.split(&c[1], p);
        let (kc, uc) = self.split(&c[2], p);
        if ua.is_empty() && ub.is_empty() && uc.is_empty() {
            return ka * kb == kc;
        }
        // a linear equation sum(e_i x_i) + k = 0 when one side of the product is known
        let lin: Option<(Vec<(usize, F)>, F)> = if ua.is_empty() {
            Some((Self::merge(&ub, ka, &uc), ka * kb - kc))
        } else if ub.is_empty() {
            Some((Self::merge(&ua, kb, &uc), ka * kb - kc))
        } else {
            None
        };
        if let Some((l, k)) = lin {
            return self.linear(l, k, p, hint, ch);
        }
        // single unknown overall
        let v = ua[0].0;
        if ua.len() == 1 && ub.len() == 1 && ub[0].0 == v && (uc.is_empty() || (uc.len() == 1 && uc[0].0 == v)) {
            let (a1, b1) = (ua[0].1, ub[0].1);
            let c1 = uc.get(0).map(|x| x.1).unwrap_or(F::zero());
            let roots = match sqrt_roots(a1 * b1, a1 * kb + b1 * ka - c1, ka * kb - kc, hint.map(|h| h[v])) {
                Some(r) => r,
                None => return true,
            };
            let roots: Vec<F> = match p.dom[v] {
                Some((a, b)) => roots.into_iter().filter(|x| *x == a || *x == b).collect(),
                None => roots,
            };
            return match roots.len() {
                0 => false,
                1 => Self::assign(p, v, roots[0], ch),
                _ => {
                    if p.dom[v].is_none() {
                        p.dom[v] = Some((roots[0], roots[1]));
                        ch.push(v);
                    }
                    true
                }
            };
        }
        // few two-valued unknowns, at most one unknown of unknown range that occurs linearly in C
        self.combos(&[(ka, &ua), (kb, &ub), (kc, &uc)], p, ch)
    }
    fn combos(&self, s: &[(F, &Vec<(usize, F)>); 3], p: &mut Part<F>, ch: &mut Vec<usize>) -> bool {
        let mut two: Vec<usize> = vec![];
        let mut free: Option<(usize, F)> = None;
        for (i, (_, u)) in s.iter().enumerate() {
            for (v, c) in u.iter() {
                if p.dom[*v].is_some() {
                    if !two.contains(v) {
                        two.push(*v);
                    }
                } else if i == 2 && free.is_none() {
                    free = Some((*v, *c));
                } else {
                    return true;
                }
            }
        }
        if two.len() > 5 {
            return true;
        }
        let mut live: Vec<u32> = vec![];
        let mut outs: Vec<F> = vec![];
        // other small constraints over the same unknowns restrict the combinations
        let mut side: Vec<u32> = vec![];
        if two.len() > 2 {
            for v in &two {
                for k in &self.by_var[*v] {
                    let c = &self.cons[*k as usize];
                    if !side.contains(k)
                        && c[0].len() + c[1].len() + c[2].len() <= 8
                        && c.iter().all(|l| l.iter().all(|(u, _)| p.val[*u].is_some() || two.contains(u)))
                    {
                        side.push(*k);
                    }
                }
            }
        }
        for m in 0..1u32 << two.len() {
            if !side.is_empty() {
                let e = |l: &Vec<(usize, F)>| {
                    l.iter().fold(F::zero(), |a, (u, c)| {
                        a + *c
                            * p.val[*u].unwrap_or_else(|| {
                                let i = two.iter().position(|x| x == u).unwrap();
                                let (x, y) = p.dom[*u].unwrap();
                                if m >> i & 1 == 1 { y } else { x }
                            })
                    })
                };
                if !side.iter().all(|k| {
                    let c = &self.cons[*k as usize];
                    e(&c[0]) * e(&c[1]) == e(&c[2])
                }) {
                    continue;
                }
            }
            let val = |v: usize| -> F {
                let i = two.iter().position(|x| *x == v).unwrap();
                let (a, b) = p.dom[v].unwrap();
                if m >> i & 1 == 1 { b } else { a }
            };
            let ev = |k: usize| -> F { s[k].1.iter().filter(|x| free.map(|f| k != 2 || f.0 != x.0).unwrap_or(true)).fold(s[k].0, |a, (v, c)| a + val(*v) * c) };
            let r = ev(0) * ev(1) - ev(2);
            match free {
                Some((_, c)) => {
                    live.push(m);
                    let x = r * c.inverse().unwrap();
                    if !outs.contains(&x) {
                        outs.push(x);
                    }
                }
                None if r.is_zero() => live.push(m),
                None => {}
            }
        }
        if let Some((v, _)) = free {
            return match outs.len() {
                1 => Self::assign(p, v, outs[0], ch),
                2 => {
                    p.dom[v] = Some((outs[0], outs[1]));
                    ch.push(v);
                    true
                }
                _ => true,
            };
        }
        if live.is_empty() {
            return false;
        }
        for (i, v) in two.iter().enumerate() {
            let b = live[0] >> i & 1;
            if live.iter().all(|m| m >> i & 1 == b) {
                let (lo, hi) = p.dom[*v].unwrap();
                if !Self::assign(p, *v, if b == 1 { hi } else { lo }, ch) {
                    return false;
                }
            }
        }
        true
    }
    fn merge(u: &[(usize, F)], s: F, c: &[(usize, F)]) -> Vec<(usize, F)> {
        let mut o: Vec<(usize, F)> = u.iter().map(|(v, x)| (*v, *x * s)).collect();
        for (v, x) in c {
            match o.iter_mut().find(|y| y.0 == *v) {
                Some(y) => y.1 -= x,
                None => o.push((*v, -*x)),
            }
        }
        o.retain(|x| !x.1.is_zero());
        o
    }
    fn linear(&self, l: Vec<(usize, F)>, k: F, p: &mut Part<F>, _hint: Option<&[F]>, ch: &mut Vec<usize>) -> bool {
        if l.is_empty() {
            return k.is_zero();
        }
        if l.len() == 1 {
            let x = -k * l[0].1.inverse().unwrap();
            return Self::assign(p, l[0].0, x, ch);
        }
        let nod: Vec<(usize, F)> = l.iter().filter(|(v, _)| p.dom[*v].is_none()).cloned().collect();
        if nod.len() > 1 {
            return true;
        }
        if nod.len() == 1 {
            if l.len() > 6 {
                return true;
            }
            let (v, c) = nod[0];
            let rest: Vec<(usize, F)> = l.iter().filter(|x| x.0 != v).cloned().collect();
            let mut outs: Vec<F> = vec![];
            for m in 0..1u32 << rest.len() {
                let s = rest.iter().enumerate().fold(k, |a, (i, (u, e))| {
                    let (lo, hi) = p.dom[*u].unwrap();
                    a + *e * if m >> i & 1 == 1 { hi } else { lo }
                });
                let x = -s * c.inverse().unwrap();
                if !outs.contains(&x) {
                    outs.push(x);
                }
                if outs.len() > 2 {
                    return true;
                }
            }
            if outs.len() == 1 {
                return Self::assign(p, v, outs[0], ch);
            }
            p.dom[v] = Some((outs[0], outs[1]));
            ch.push(v);
            return true;
        }
        // x_i = lo_i + d_i y_i, y_i in {0,1}:   sum(w_i y_i) = t
        let mut t = -k;
        let mut w: Vec<(usize, F)> = vec![];
        for (v, e) in &l {
            let (lo, hi) = p.dom[*v].unwrap();
            t -= *e * lo;
            w.push((*v, *e * (hi - lo)));
        }
        if w.len() <= 6 {
            let mut sols = vec![];
            for m in 0..1u32 << w.len() {
                let s = w.iter().enumerate().fold(F::zero(), |a, (i, (_, e))| if m >> i & 1 == 1 { a + e } else { a });
                if s == t {
                    sols.push(m);
                }
            }
            if sols.is_empty() {
                return false;
            }
            for (i, (v, _)) in w.iter().enumerate() {
                let b = sols[0] >> i & 1;
                if sols.iter().all(|s| s >> i & 1 == b) {
                    let (lo, hi) = p.dom[*v].unwrap();
                    if !Self::assign(p, *v, if b == 1 { hi } else { lo }, ch) {
                        return false;
                    }
                }
            }
            return true;
        }
        // signed magnitudes
        let mut m: Vec<(usize, bool, F::BigInt)> = vec![];
        for (v, e) in &w {
            let r = e.into_repr();
            let nr = (-*e).into_repr();
            if r < nr {
                m.push((*v, false, r));
            } else {
                t += -*e; // y -> 1 - y
                m.push((*v, true, nr));
            }
        }
        m.sort_by(|a, b| a.2.cmp(&b.2));
        let mut sum = <F::BigInt as Default>::default();
        let mut superinc = true;
        for (_, _, x) in &m {
            superinc &= *x > sum;
            if sum.add_nocarry(x) || sum >= <F::Params as FpParameters>::MODULUS {
                return true;
            }
        }
        // the equation holds over the integers: sum(m_i y_i) = r
        let mut r = t.into_repr();
        if r > sum {
            return false;
        }
        if superinc {
            for (v, neg, x) in m.iter().rev() {
                let take = r >= *x;
                if take {
                    r.sub_noborrow(x);
                }
                let (lo, hi) = p.dom[*v].unwrap();
                if !Self::assign(p, *v, if take != *neg { hi } else { lo }, ch) {
                    return false;
                }
            }
            return r == <F::BigInt as Default>::default();
        }
        // low bits first: a unique unknown of lowest 2-adic weight is read off the target
        let tz = |b: &F::BigInt| -> u32 {
            let mut n = 0;
            for w in b.as_ref() {
                if *w == 0 {
                    n += 64;
                } else {
                    return n + w.trailing_zeros();
                }
            }
            n
        };
        let mut q: Vec<(u32, usize, bool, F::BigInt)> = m.iter().map(|(v, n, x)| (tz(x), *v, *n, *x)).collect();
        q.sort_by_key(|x| x.0);
        for i in 0..q.len() {
            let (z, v, neg, x) = q[i];
            let low = tz(&r);
            if r != <F::BigInt as Default>::default() && low < z {
                return false;
            }
            if i + 1 < q.len() && q[i + 1].0 == z {
                return true;
            }
            let take = r != <F::BigInt as Default>::default() && low == z;
            if take && r.sub_noborrow(&x) {
                return false;
            }
            let (lo, hi) = p.dom[v].unwrap();
            if !Self::assign(p, v, if take != neg { hi } else { lo }, ch) {
                return false;
            }
        }
        r == <F::BigInt as Default>::default()
    }

    /// Are `outs` forced once `known` have the values they have in `z`?
    /// `z` is a satisfying assignment.
    pub fn determined(&self, z: &[F], known: &[usize], outs: &[usize], nodes: &mut u64) -> Det<F> {
        let mut p = self.start();
        for k in known {
            p.val[*k] = Some(z[*k]);
        }
        *nodes += 1;
        if !self.propagate(&mut p, None, Some(z)) {
            // cannot happen when z satisfies the system
            return Det::Undecided(usize::MAX);
        }
        let open: Vec<usize> = outs.iter().cloned().filter(|o| p.val[*o].is_none()).collect();
        if open.is_empty() {
            return Det::Determined;
        }
        // branch on every undetermined unknown (outputs first), then complete the assignment
        let mut cand: Vec<usize> = open.iter().take(40).cloned().collect();
        cand.extend((1..self.n).filter(|v| p.val[*v].is_none()).take(60));
        for v in cand {
            let alts: Vec<F> = match p.dom[v] {
                Some((a, b)) => vec![if z[v] == a { b } else { a }],
                None => vec![z[v] + F::one(), F::zero(), z[v].double() + F::one()],
            };
            for x in alts {
                if x == z[v] {
                    continue;
                }
                *nodes += 1;
                let mut q = p.clone();
                q.val[v] = Some(x);
                if !self.propagate(&mut q, Some(v), None) {
                    continue;
                }
                if let Some(s) = self.complete(q, z, nodes) {
                    if self.sat(&s) && outs.iter().any(|o| s[*o] != z[*o]) && known.iter().all(|k| s[*k] == z[*k]) {
                        return Det::Second(s);
                    }
                }
            }
        }
        Det::Undecided(open.len())
    }
    fn complete(&self, mut q: Part<F>, z: &[F], nodes: &mut u64) -> Option<Vec<F>> {
        // everything the change did not force keeps its value
        let all: Vec<F> = (0..self.n).map(|v| q.val[v].unwrap_or(z[v])).collect();
        if self.sat(&all) {
            return Some(all);
        }
        for v in 0..self.n {
            if q.val[v].is_some() {
                continue;
            }
            let mut alts = vec![z[v]];
            match q.dom[v] {
                Some((a, b)) => alts = if z[v] == b { vec![b, a] } else { vec![a, b] },
                None => {
                    alts.push(F::zero());
                    alts.push(F::one())
                }
            }
            let mut ok = false;
            for x in alts {
                *nodes += 1;
                let mut r = q.clone();
                r.val[v] = Some(x);
                if self.propagate(&mut r, Some(v), None) {
                    q = r;
                    ok = true;
                    break;
                }
            }
            if !ok {
                return None;
            }
        }
        q.val.into_iter().collect()
    }

    /// Every solution (small fields): depth-first, branching on all field elements.
    /// `f` returns false to stop. Returns the number of search nodes.
    pub fn solutions<Fun: FnMut(&[F]) -> bool>(&self, fixed: &[(usize, F)], mut f: Fun) -> u64 {
        let mut p = self.start();
        for (v, x) in fixed {
            p.val[*v] = Some(*x);
        }
        let elems: Vec<F> = {
            let m = <F::Params as FpParameters>::MODULUS.as_ref()[0];
            assert!(<F::Params as FpParameters>::MODULUS_BITS <= 14, "exhaustive search needs a small field");
            (0..m).map(F::from).collect()
        };
        let mut nodes = 0;
        let mut stop = false;
        if self.propagate(&mut p, None, None) {
            self.dfs(p, &elems, &mut f, &mut nodes, &mut stop);
        } else {
            nodes = 1;
        }
        nodes
    }
    fn dfs<Fun: FnMut(&[F]) -> bool>(&self, p: Part<F>, elems: &[F], f: &mut Fun, nodes: &mut u64, stop: &mut bool) {
        *nodes += 1;
        if *stop {
            return;
        }
        let open: Vec<usize> = (0..self.n).filter(|v| p.val[*v].is_none()).collect();
        let v = match open.iter().find(|v| p.dom[**v].is_some()).or(open.first()) {
            None => {
                let z: Vec<F> = p.val.iter().map(|x| x.unwrap()).collect();
                if !f(&z) {
                    *stop = true;
                }
                return;
            }
            Some(v) => *v,
        };
        let alts: Vec<F> = match p.dom[v] {
            Some((a, b)) => vec![a, b],
            None => elems.to_vec(),
        };
        for x in alts {
            let mut q = p.clone();
            q.val[v] = Some(x);
            if self.propagate(&mut q, Some(v), None) {
                self.dfs(q, elems, f, nodes, stop);
                if *stop {
                    return;
                }
            }
        }
    }
}
