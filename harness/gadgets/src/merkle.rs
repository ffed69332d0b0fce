//! D08 native complete binary Merkle tree over a free (collision-free) merge; D09 membership circuit.
use crate::words::refhash;
use ark_ff::{PrimeField, Zero};
use mccore::toy::*;
use mccore::*;
use std::cell::RefCell;
use std::collections::HashMap;
use zkp_gadgets::hashes::mimc::{self, AbstractHashMimc, AbstractHashMimcOutput};
use zkp_gadgets::hashes::poseidon::{self, AbstractHashPoseidon, AbstractHashPoseidonOutput};
use zkp_gadgets::hashes::rescue::{self, AbstractHashRescue, AbstractHashRescueOutput};
use zkp_gadgets::hashes::sha256::{AbstractHashSha256, AbstractHashSha256Output};
use zkp_gadgets::hashes::abstract_hash::{AbstractHash, AbstractHashOutput};
use zkp_gadgets::merkletree::cbmt::*;
use zkp_gadgets::merkletree::cbmt_constraints::MerkleProofGadget;
use zkp_r1cs::{ConstraintSystem, SynthesisError};

thread_local! {
    static TERMS: RefCell<(HashMap<(u64, u64), u64>, u64)> = RefCell::new((HashMap::new(), 1 << 32));
}
/// merge as a free constructor: equal results only for equal arguments
struct Free;
impl Merge for Free {
    type Item = u64;
    fn merge(l: &u64, r: &u64) -> u64 {
        TERMS.with(|t| {
            let mut t = t.borrow_mut();
            if let Some(x) = t.0.get(&(*l, *r)) {
                return *x;
            }
            t.1 += 1;
            let n = t.1;
            t.0.insert((*l, *r), n);
            n
        })
    }
}
type T = CBMT<u64, Free>;

pub fn d08(ctx: &Ctx) {
    let maxn = ctx.b(80u32, 200);
    let ns: Vec<u32> = (0..=maxn).collect();
    par_for(&ns, |_, &n| {
        let leaves: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
        ctx.state(&("tree", n));
        let tree = match guard(|| T::build_merkle_tree(leaves.clone())) {
            Ok(t) => t,
            Err(e) => {
                ctx.violate("panic build", || format!("{} leaves: {}", n, e));
                return;
            }
        };
        let root = tree.root();
        ctx.step(2);
        match guard(|| T::build_merkle_root(&leaves)) {
            Ok(r) => {
                ctx.check(r == root, "root-builders-disagree", || format!("{} leaves", n));
            }
            Err(e) => ctx.violate("panic root", || format!("{} leaves: {}", n, e)),
        }
        // the reference tree: node i has children 2i+1, 2i+2, leaves last
        if n > 0 {
            let mut nodes = vec![0u64; n as usize - 1];
            nodes.extend(&leaves);
            for i in (0..n as usize - 1).rev() {
                nodes[i] = Free::merge(&nodes[2 * i + 1], &nodes[2 * i + 2]);
            }
            ctx.check(*tree.nodes() == nodes, "tree-layout", || format!("{} leaves", n));
        } else {
            ctx.check(tree.nodes().is_empty() && root == 0, "tree-layout", || "empty tree".into());
        }
        // out-of-range leaf numbers have no proof
        for i in (n..n + 6).chain([2 * n + 7, u32::MAX / 2, u32::MAX - n, u32::MAX - 1, u32::MAX]) {
            if i < n {
                continue;
            }
            ctx.step(1);
            match guard(|| tree.build_proof(&i).is_none()) {
                Ok(b) => {
                    ctx.check(b, "proof-for-missing-leaf", || format!("{} leaves, leaf number {}", n, i));
                }
                Err(e) => ctx.violate("panic build_proof", || format!("{} leaves, leaf number {}: {}", n, i, e)),
            }
        }
        for i in 0..n {
            let what = || format!("{} leaves, leaf {}", n, i);
            let pf = match guard(|| tree.build_proof(&i)) {
                Ok(Some(p)) => p,
                Ok(None) => {
                    ctx.violate("no-proof", || what());
                    continue;
                }
                Err(e) => {
                    ctx.violate("panic build_proof", || format!("{}: {}", what(), e));
                    continue;
                }
            };
            let leaf = leaves[i as usize];
            let idx = *pf.index();
            let lem = pf.lemmas().to_vec();
            ctx.trace(1);
            ctx.state(&("proof", n, i));
            ctx.check(pf.verify(&root, &leaf) && pf.root(&leaf) == Some(root), "genuine-proof-rejected", || what());
            ctx.check(idx == n - 1 + i, "proof-index", || format!("{}: {}", what(), idx));
            if let Ok(Some(p2)) = guard(|| T::build_merkle_proof(&leaves, &i)) {
                ctx.check(*p2.index() == idx && p2.lemmas() == &lem[..], "proof-builders-disagree", || what());
            } else {
                ctx.violate("proof-builders-disagree", || what());
            }
            let verify = |index: u32, l: &[u64], root: u64, leaf: u64| guard(|| MerkleProof::<u64, Free>::new(index, l.to_vec()).verify(&root, &leaf));
            let reject = |key: &str, index: u32, l: &[u64], root: u64, leaf: u64| {
                ctx.step(1);
                match verify(index, l, root, leaf) {
                    Ok(false) => {}
                    Ok(true) => ctx.violate(key, || format!("{}: accepted with index {} lemmas {:?} root {} leaf {} (genuine index {} lemmas {:?} root {})", what(), index, l, root, leaf, idx, lem, pf.root(&leaf).unwrap_or(0))),
                    Err(e) => ctx.violate("panic verify", || format!("{}: index {}: {}", what(), index, e)),
                }
            };
            for o in leaves.iter().chain([0u64, 7].iter()) {
                if *o != leaf {
                    reject("other-leaf", idx, &lem, root, *o);
                }
            }
            for j in (0..4 * n + 8).chain([u32::MAX, u32::MAX - 1, u32::MAX / 2, idx ^ (1 << 31), idx | 1 << 16]) {
                if j != idx {
                    reject("other-index", j, &lem, root, leaf);
                }
            }
            for r in tree.nodes().iter().chain([0u64, 9].iter()) {
                if *r != root {
                    reject("other-root", idx, &lem, *r, leaf);
                }
            }
            for k in 0..lem.len() {
                for o in tree.nodes().iter().chain([0u64].iter()) {
                    if *o != lem[k] {
                        let mut l = lem.clone();
                        l[k] = *o;
                        reject("altered-sibling", idx, &l, root, leaf);
                    }
                }
                let mut l = lem.clone();
                l.remove(k);
                reject("removed-sibling", idx, &l, root, leaf);
                for o in [0u64, root, leaf] {
                    let mut l = lem.clone();
                    l.insert(k, o);
                    reject("inserted-sibling", idx, &l, root, leaf);
                }
                if k + 1 < lem.len() {
                    let mut l = lem.clone();
                    l.swap(k, k + 1);
                    reject("swapped-siblings", idx, &l, root, leaf);
                }
            }
            let mut l = lem.clone();
            l.push(root);
            reject("appended-sibling", idx, &l, root, leaf);
            if n > 1 {
                reject("empty-path", idx, &[], root, leaf);
            }
            ctx.sample("proof", || format!("{}: index {} path length {}", what(), idx, lem.len()));
        }
        // trees that differ in one leaf, or in the order of two leaves, differ in their root
        for i in 0..n as usize {
            let mut l = leaves.clone();
            l[i] = 55;
            ctx.step(1);
            ctx.check(T::build_merkle_root(&l) != root, "roots-collide", || format!("{} leaves, leaf {} changed", n, i));
            if i + 1 < n as usize {
                let mut l = leaves.clone();
                l.swap(i, i + 1);
                ctx.check(T::build_merkle_root(&l) != root, "roots-collide", || format!("{} leaves, leaves {} and {} swapped", n, i, i + 1));
            }
        }
    });
    ctx.bound(format!("every tree of 0..={} leaves, every leaf, every index below 4n+8 and boundary indices, every replacement/removal/insertion of one sibling by every node value", maxn));
    // small trees: every (index, sibling list, leaf) over all node values
    let maxs = ctx.b(6u32, 8);
    for n in 1..=maxs {
        let leaves: Vec<u64> = (0..n as u64).map(|i| 100 + i).collect();
        let tree = T::build_merkle_tree(leaves.clone());
        let root = tree.root();
        let mut dom: Vec<u64> = tree.nodes().clone();
        dom.push(0);
        let mut acc = 0;
        for len in 0..=ctx.b(4usize, 5) {
            if dom.len().pow(len as u32) > ctx.b(40_000, 700_000) {
                continue;
            }
            for lem in tuples(&dom, len) {
                for leaf in leaves.iter().chain([0u64].iter()) {
                    for index in 0..=2 * n + 3 {
                        ctx.step(1);
                        let ok = match guard(|| MerkleProof::<u64, Free>::new(index, lem.clone()).verify(&root, leaf)) {
                            Ok(b) => b,
                            Err(e) => {
                                ctx.violate("panic verify", || format!("{} leaves index {} lemmas {:?}: {}", n, index, lem, e));
                                continue;
                            }
                        };
                        let genuine = index >= n - 1 && index < 2 * n - 1 && leaves[(index - (n - 1)) as usize] == *leaf && tree.build_proof(&(index - (n - 1))).map(|p| p.lemmas() == &lem[..]).unwrap_or(false);
                        acc += ok as u64;
                        if ok != genuine {
                            ctx.violate(if ok { "forged-path" } else { "genuine-proof-rejected" }, || format!("{} leaves: index {} lemmas {:?} leaf {}: accepted {} genuine {}", n, index, lem, leaf, ok, genuine));
                        }
                    }
                }
            }
        }
        ctx.trace(acc);
    }
    ctx.bound(format!("trees of 1..={} leaves: every index, every sibling list up to length 3 (4) over all node values, every leaf value", maxs));
    // large trees: layout, both root builders, every leaf's proof, its neighbours' positions
    let big: Vec<u32> = ctx.b(vec![63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 65535, 65536, 65537, 70001], vec![200, 300, 511, 512, 513, 1000, 2047, 2048, 2049, 4095, 4096, 4097, 65535, 65536, 65537, 70001, 131071, 131072, 262145, 1 << 20]);
    // and small ones with repeated leaves: (leaves, different values)
    let mut jobs: Vec<(u32, u32)> = big.iter().map(|n| (*n, *n)).collect();
    for n in 1..=ctx.b(40, 80) {
        for m in 1..=4u32 {
            jobs.push((n, m));
        }
    }
    par_for(&jobs, |_, &(n, m)| {
        let leaves: Vec<u64> = (0..n as u64).map(|i| 100 + i % m as u64).collect();
        ctx.state(&("large or repeated", n, m));
        let mut nodes = vec![0u64; n as usize - 1];
        nodes.extend(&leaves);
        for i in (0..n as usize - 1).rev() {
            nodes[i] = Free::merge(&nodes[2 * i + 1], &nodes[2 * i + 2]);
        }
        let built = guard(|| (T::build_merkle_tree(leaves.clone()), T::build_merkle_root(&leaves)));
        let (tree, root) = match built {
            Ok(x) => x,
            Err(e) => {
                ctx.violate("panic build", || format!("{} leaves of {} values: {}", n, m, e));
                return;
            }
        };
        ctx.check(root == nodes[0] && tree.root() == nodes[0], "root-builders-disagree", || format!("{} leaves of {} values", n, m));
        ctx.check(*tree.nodes() == nodes, "tree-layout", || format!("{} leaves of {} values", n, m));
        for i in 0..n {
            if m == n && i > 40 && i + 40 < n && i % 997 != 0 && (i + 1) & i != 0 && i & (i - 1) != 0 {
                continue;
            }
            let what = || format!("{} leaves of {} values, leaf {}", n, m, i);
            ctx.step(1);
            let pf = match guard(|| tree.build_proof(&i)) {
                Ok(Some(p)) => p,
                r => {
                    ctx.violate("no-proof", || format!("{}: {:?}", what(), r.err()));
                    continue;
                }
            };
            ctx.trace(1);
            ctx.check(pf.verify(&root, &leaves[i as usize]), "genuine-proof-rejected", what);
            ctx.check(*pf.index() == n - 1 + i && pf.lemmas() == &path(&nodes, (n - 1 + i) as usize)[..], "proof-index", what);
            ctx.check(!pf.verify(&root, &7), "other-leaf", what);
            if m == n {
                for j in [n - 1 + (i + 1) % n, n - 1 + (i + n - 1) % n, (n - 1 + i) ^ (1 << 16), (n - 1 + i) ^ (1 << 8), i, n - 1 + i - (n - 1 + i) / 2] {
                    if j != n - 1 + i {
                        ctx.check(!MerkleProof::<u64, Free>::new(j, pf.lemmas().to_vec()).verify(&root, &leaves[i as usize]), "other-index", || format!("{}: accepted at {}", what(), j));
                    }
                }
            }
        }
        ctx.check(matches!(guard(|| tree.build_proof(&n).is_none()), Ok(true)), "proof-for-missing-leaf", || format!("{} leaves", n));
    });
    ctx.bound(format!("trees of {:?} leaves (proofs of the first, last and evenly spaced ones), trees of 1..=40 (80) leaves with one to four different values", big));
    ctx.assume("merge is a free constructor (no collisions)");
}

// ---------------------------------------------------------------- D09
trait Hasher<F: PrimeField> {
    type H: AbstractHash<F>;
    type V: Clone + Ord + Default + PartialEq + std::fmt::Debug + Sync;
    fn merge(l: &Self::V, r: &Self::V) -> Self::V;
    fn alloc(rec: &mut Recorder<F>, n: &str, v: &Self::V) -> <Self::H as AbstractHash<F>>::Output;
    fn leaf(i: u64) -> Self::V;
    fn other(v: &Self::V) -> Vec<Self::V>;
    fn elems(v: &Self::V) -> Vec<F>;
}
macro_rules! field_hasher {
    ($name:ident, $h:ident, $out:ident, $m:ident) => {
        struct $name;
        impl<F: PrimeField> Hasher<F> for $name {
            type H = $h<F>;
            type V = F;
            fn merge(l: &F, r: &F) -> F {
                let mut b = vec![];
                l.write(&mut b).unwrap();
                r.write(&mut b).unwrap();
                $m::hash(&b)
            }
            fn alloc(rec: &mut Recorder<F>, n: &str, v: &F) -> $out<F> {
                $out::alloc(rec.ns(|| n.to_string()), Some(*v)).unwrap()
            }
            fn leaf(i: u64) -> F {
                F::from(3 * i + 1)
            }
            fn other(v: &F) -> Vec<F> {
                vec![*v + F::one(), F::zero(), -*v]
            }
            fn elems(v: &F) -> Vec<F> {
                vec![*v]
            }
        }
    };
}
field_hasher!(HMimc, AbstractHashMimc, AbstractHashMimcOutput, mimc);
field_hasher!(HPoseidon, AbstractHashPoseidon, AbstractHashPoseidonOutput, poseidon);
field_hasher!(HRescue, AbstractHashRescue, AbstractHashRescueOutput, rescue);
struct HSha;
impl<F: PrimeField> Hasher<F> for HSha {
    type H = AbstractHashSha256<F>;
    type V = Vec<u8>;
    fn merge(l: &Vec<u8>, r: &Vec<u8>) -> Vec<u8> {
        refhash::sha256(&[&l[..], &r[..]].concat())
    }
    fn alloc(rec: &mut Recorder<F>, n: &str, v: &Vec<u8>) -> AbstractHashSha256Output {
        AbstractHashSha256Output::alloc::<F, _>(rec.ns(|| n.to_string()), v.clone()).unwrap()
    }
    fn leaf(i: u64) -> Vec<u8> {
        vec![i as u8 + 1]
    }
    fn other(v: &Vec<u8>) -> Vec<Vec<u8>> {
        let mut a = v.clone();
        a[0] ^= 0x80;
        let mut b = v.clone();
        let k = b.len() - 1;
        b[k] ^= 1;
        vec![a, b]
    }
    fn elems(v: &Vec<u8>) -> Vec<F> {
        v.iter().flat_map(|b| (0..8).rev().map(move |i| F::from((b >> i & 1) as u64))).collect()
    }
}
fn tree<F: PrimeField, X: Hasher<F>>(n: usize) -> Vec<X::V> {
    tree_of::<F, X>((0..n as u64).map(X::leaf).collect())
}
fn tree_of<F: PrimeField, X: Hasher<F>>(leaves: Vec<X::V>) -> Vec<X::V> {
    let n = leaves.len();
    let mut nodes = vec![X::V::default(); n - 1];
    nodes.extend(leaves);
    for i in (0..n - 1).rev() {
        nodes[i] = X::merge(&nodes[2 * i + 1], &nodes[2 * i + 2]);
    }
    nodes
}
fn path<V: Clone>(nodes: &[V], mut i: usize) -> Vec<V> {
    let mut out = vec![];
    while i > 0 {
        out.push(nodes[((i + 1) ^ 1) - 1].clone());
        i = (i - 1) / 2;
    }
    out
}
struct Built<F: PrimeField> {
    rec: Recorder<F>,
    root: Vec<usize>,
    leaf: Vec<usize>,
    lem: Vec<Vec<usize>>,
}
fn build<F: PrimeField, X: Hasher<F>>(index: u32, lem: &[X::V], root: &X::V, leaf: &X::V) -> Result<Result<Built<F>, SynthesisError>, String> {
    build_in::<F, X>(Recorder::new(), index, lem, root, leaf)
}
fn build_in<F: PrimeField, X: Hasher<F>>(mut rec: Recorder<F>, index: u32, lem: &[X::V], root: &X::V, leaf: &X::V) -> Result<Result<Built<F>, SynthesisError>, String> {
    guard(|| {
        let r = X::alloc(&mut rec, "root", root);
        let l = X::alloc(&mut rec, "leaf", leaf);
        let ls: Vec<_> = lem.iter().enumerate().map(|(i, v)| X::alloc(&mut rec, &format!("l{}", i), v)).collect();
        let ni = rec.inputs.len();
        let ids = |o: &<X::H as AbstractHash<F>>::Output| o.get_variables().iter().map(|v| vid::<F>(ni, *v)).collect::<Vec<_>>();
        let (ri, li, lemi) = (ids(&r), ids(&l), ls.iter().map(ids).collect());
        MerkleProofGadget::<u32, F, X::H>::new(index, ls).set_membership(rec.ns(|| "m"), r, l)?;
        Ok(Built { rec, root: ri, leaf: li, lem: lemi })
    })
}
/// genuine paths in trees with repeated leaves (equal siblings, equal subtrees)
fn d09_repeated<F: PrimeField, X: Hasher<F>>(ctx: &Ctx, hname: &str, sizes: &[usize]) {
    let mut jobs = vec![];
    for &n in sizes {
        for m in 1..=3 {
            for i in 0..n {
                jobs.push((n, m, i));
            }
        }
    }
    par_for(&jobs, |_, &(n, m, i)| {
        let nodes = tree_of::<F, X>((0..n as u64).map(|i| X::leaf(i % m as u64)).collect());
        let at = n - 1 + i;
        ctx.state(&(hname, "repeated", n, m, i));
        ctx.step(1);
        match build::<F, X>(at as u32, &path(&nodes, at), &nodes[0], &nodes[at]) {
            Ok(Ok(b)) => {
                ctx.trace(1);
                ctx.check(b.rec.sat(), "genuine-path-unsatisfied", || format!("{} {} leaves of {} values, leaf {}", hname, n, m, i));
            }
            Ok(Err(e)) => ctx.violate("genuine-path-refused", || format!("{} {} leaves of {} values, leaf {}: {:?}", hname, n, m, i, e)),
            Err(e) => ctx.violate("panic", || format!("{} {} leaves of {} values, leaf {}: {}", hname, n, m, i, e)),
        }
    });
}
fn every(sizes: &[usize]) -> Vec<(usize, usize)> {
    sizes.iter().flat_map(|n| (0..*n).map(move |i| (*n, i))).collect()
}
fn d09_h<F: PrimeField, X: Hasher<F>>(ctx: &Ctx, hname: &str, jobs: &[(usize, usize)], alter: usize) {
    let mut jobs = jobs.to_vec();
    jobs.sort_by_key(|j| std::cmp::Reverse(*j));
    par_for(&jobs, |_, &(n, i)| {
        let nodes = tree::<F, X>(n);
        let root = nodes[0].clone();
        let at = n - 1 + i;
        let leaf = nodes[at].clone();
        let lem = path(&nodes, at);
        let what = || format!("{} {} leaves, leaf {}", hname, n, i);
        ctx.state(&(hname, n, i));
        ctx.step(1);
        let b = match build::<F, X>(at as u32, &lem, &root, &leaf) {
            Ok(Ok(b)) => b,
            Ok(Err(e)) => {
                ctx.violate("genuine-path-refused", || format!("{}: {:?}", what(), e));
                return;
            }
            Err(e) => {
                ctx.violate("panic", || format!("{}: {}", what(), e));
                return;
            }
        };
        ctx.trace(1);
        ctx.check(b.rec.sat(), "genuine-path-unsatisfied", || format!("{}: constraint {:?}", what(), b.rec.first_unsat()));
        // keys are made with any values in place of the root, the leaf and the siblings
        for k in 0..2 {
            let dummy = |v: &X::V| X::other(v).swap_remove(k);
            let r = build_in::<F, X>(Recorder::for_setup(), at as u32, &lem.iter().map(dummy).collect::<Vec<_>>(), &dummy(&root), &dummy(&leaf));
            ctx.check(matches!(&r, Ok(Ok(k)) if k.rec.canonical() == b.rec.canonical()), "shape", || format!("{}: constraints depend on the values", what()));
        }
        let sys = Sys::of(&b.rec);
        let z = Sys::full(&b.rec);
        // adversary: root, leaf and siblings given, everything else free
        let fixed_all: Vec<usize> = b.root.iter().chain(&b.leaf).chain(b.lem.iter().flatten()).cloned().collect();
        let attack = |key: &str, set: &[(usize, F)], d: &dyn Fn() -> String| {
            let mut p = sys.start();
            for k in &fixed_all {
                p.val[*k] = Some(z[*k]);
            }
            for (k, x) in set {
                p.val[*k] = Some(*x);
            }
            ctx.step(1);
            ctx.trace(1);
            if sys.propagate(&mut p, None, None) {
                let open = p.val.iter().filter(|x| x.is_none()).count();
                // complete: every open variable keeps its honest value, then first-fit
                let full: Vec<F> = (0..sys.n).map(|v| p.val[v].unwrap_or(z[v])).collect();
                if sys.sat(&full) {
                    ctx.violate(key, || format!("{}: {}: all {} constraints satisfied", what(), d(), sys.cons.len()));
                } else {
                    // free digest bits: choose whatever the final equality wants
                    let mut q = p.clone();
                    let mut ok = true;
                    let mut steps = 0;
                    for v in 0..sys.n {
                        if q.val[v].is_none() {
                            steps += 1;
                            if steps > 3000 {
                                ok = false;
                                break;
                            }
                            let alts: Vec<F> = match q.dom[v] {
                                Some((a, b)) => vec![if z[v] == b { b } else { a }, if z[v] == b { a } else { b }],
                                None => vec![z[v], F::zero(), F::one()],
                            };
                            let mut hit = false;
                            for x in alts {
                                let mut r = q.clone();
                                r.val[v] = Some(x);
                                if sys.propagate(&mut r, Some(v), None) {
                                    q = r;
                                    hit = true;
                                    break;
                                }
                            }
                            if !hit {
                                ok = false;
                                break;
                            }
                        }
                    }
                    if ok && q.val.iter().all(|x| x.is_some()) && sys.sat(&q.val.iter().map(|x| x.unwrap()).collect::<Vec<_>>()) {
                        ctx.violate(key, || format!("{}: {}: satisfied with adversarial internal values", what(), d()));
                    } else {
                        ctx.count("undecided", 1);
                        ctx.capped();
                        ctx.sample("undecided", || format!("{} {}: {} open variables", what(), key, open));
                    }
                }
            } else {
                ctx.count("contradiction", 1);
            }
        };
        let sub = |ids: &[usize], v: &X::V| -> Option<Vec<(usize, F)>> {
            let e = X::elems(v);
            if e.len() != ids.len() {
                return None;
            }
            Some(ids.iter().cloned().zip(e).collect())
        };
        if n > 1 {
            let mut others = X::other(&leaf);
            others.extend((0..n).filter(|j| *j != i).map(|j| nodes[n - 1 + j].clone()));
            for o in others.into_iter().filter(|o| *o != leaf).take(alter) {
                if let Some(s) = sub(&b.leaf, &o) {
                    attack("wrong-leaf", &s, &|| format!("leaf {:?}", o));
                }
            }
            for k in 0..lem.len() {
                for o in X::other(&lem[k]).into_iter().filter(|o| *o != lem[k]).take(alter) {
                    if let Some(s) = sub(&b.lem[k], &o) {
                        attack("wrong-sibling", &s, &|| format!("sibling {} := {:?}", k, o));
                    }
                }
            }
        }
        for o in X::other(&root).into_iter().filter(|o| *o != root).take(alter) {
            if let Some(s) = sub(&b.root, &o) {
                attack("wrong-root", &s, &|| format!("root {:?}", o));
            }
        }
        // the honest generator run on altered inputs, altered positions and altered lengths
        let mut alts: Vec<(&str, u32, Vec<X::V>, X::V, X::V)> = vec![];
        for j in 0..(2 * n + 4) as u32 {
            if j as usize != at {
                alts.push(("wrong-position", j, lem.clone(), root.clone(), leaf.clone()));
            }
        }
        for o in X::other(&leaf) {
            alts.push(("wrong-leaf", at as u32, lem.clone(), root.clone(), o));
        }
        for o in X::other(&root) {
            alts.push(("wrong-root", at as u32, lem.clone(), o, leaf.clone()));
        }
        for k in 0..lem.len() {
            let mut l = lem.clone();
            l.remove(k);
            alts.push(("wrong-length", at as u32, l, root.clone(), leaf.clone()));
        }
        let mut l = lem.clone();
        l.push(root.clone());
        alts.push(("wrong-length", at as u32, l, root.clone(), leaf.clone()));
        if alter < 3 {
            let st = (alts.len() / 8).max(1);
            alts = alts.into_iter().step_by(st).collect();
        }
        for (key, idx, l, r, lf) in alts {
            if lf == leaf && r == root && l == lem && idx as usize == at {
                continue;
            }
            ctx.step(1);
            match build::<F, X>(idx, &l, &r, &lf) {
                Ok(Ok(b)) => {
                    ctx.trace(1);
                    ctx.check(!b.rec.sat(), &format!("accepted {}", key), || format!("{}: index {} with {} siblings", what(), idx, l.len()));
                }
                Ok(Err(_)) => ctx.count("refused", 1),
                Err(e) => ctx.violate(&format!("panic {}", key), || format!("{}: index {}: {}", what(), idx, e)),
            }
        }
        ctx.sample(hname, || format!("{}: {} constraints", what(), sys.cons.len()));
    });
}
pub fn d09(ctx: &Ctx) {
    let s: Vec<usize> = (1..=ctx.b(9, 20)).collect();
    d09_h::<FBig, HMimc>(ctx, "mimc/61-bit", &every(&s), 3);
    d09_h::<FBig, HPoseidon>(ctx, "poseidon/61-bit", &every(&ctx.b(vec![1, 2, 3, 5], vec![1, 2, 3, 4, 5, 6, 7])), 3);
    d09_h::<FBig, HRescue>(ctx, "rescue/61-bit", &every(&ctx.b(vec![1, 2, 3], vec![1, 2, 3, 4, 5])), 2);
    d09_h::<ark_bls12_381::Fr, HMimc>(ctx, "mimc/255-bit", &every(&ctx.b(vec![1, 3, 4], (1..=9).collect())), 3);
    d09_h::<ark_bls12_381::Fr, HSha>(ctx, "sha256/255-bit", &every(&ctx.b(vec![1, 2, 3], vec![1, 2, 3, 4, 5])), ctx.b(1, 2));
    // deep trees, a few leaves each
    let deep: Vec<(usize, usize)> = ctx.b(vec![16usize, 17, 31, 33, 64, 65, 100], vec![16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 257, 1025]).into_iter().flat_map(|n| [(n, 0), (n, n / 2), (n, n - 1)]).collect();
    d09_h::<FBig, HMimc>(ctx, "mimc/61-bit", &deep, 1);
    d09_repeated::<FBig, HMimc>(ctx, "mimc/61-bit", &ctx.b(vec![2, 3, 4, 5, 7, 8, 12], (2..=40).collect()));
    d09_repeated::<ark_bls12_381::Fr, HSha>(ctx, "sha256/255-bit", &ctx.b(vec![2, 3], vec![2, 3, 4, 5]));
    ctx.bound("mimc trees of 16..100 (1025) leaves, three leaves each, likewise; trees with one to three different leaf values, genuine paths");
    ctx.bound("mimc trees of 1..=9 (20) leaves, poseidon/rescue/sha256 trees of 1..=3/5 leaves; every leaf; altered leaf, sibling, root decided over all internal assignments; every other position below 2n+4; shortened and extended paths");
    // a root value shorter than the digest must not be compared on a prefix only
    let n = 3;
    let nodes = tree::<ark_bls12_381::Fr, HSha>(n);
    let lem = path(&nodes, n - 1);
    for cut in [0usize, 1, 31] {
        let r = nodes[0][..cut].to_vec();
        ctx.step(1);
        match build::<ark_bls12_381::Fr, HSha>((n - 1) as u32, &lem, &r, &nodes[n - 1]) {
            Ok(Ok(b)) => {
                ctx.check(!b.rec.sat(), "truncated-root-accepted", || format!("root of {} bytes", cut));
            }
            _ => ctx.count("refused", 1),
        }
    }
    let _ = FBig::zero();
}
