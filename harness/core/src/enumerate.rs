//! Bounded exhaustive exploration: stateless depth-first choice enumeration and parallel maps.
use std::sync::atomic::{AtomicUsize, Ordering};

/// A scripted chooser: `choose(n)` returns every value in `0..n` over the whole exploration.
pub struct Chooser {
    path: Vec<(usize, usize)>, // (taken, domain)
    depth: usize,
    pub choices: u64,
}
impl Chooser {
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0);
        self.choices += 1;
        let d = self.depth;
        self.depth += 1;
        if d < self.path.len() {
            assert_eq!(self.path[d].1, n, "non-deterministic replay of a choice sequence");
            self.path[d].0
        } else {
            self.path.push((0, n));
            0
        }
    }
    pub fn trail(&self) -> Vec<usize> {
        self.path[..self.depth].iter().map(|x| x.0).collect()
    }
}
/// Runs `f` once per choice sequence until the whole tree is exhausted. Returns #executions.
pub fn explore<Fun: FnMut(&mut Chooser)>(mut f: Fun) -> u64 {
    let mut path: Vec<(usize, usize)> = vec![];
    let mut runs = 0;
    loop {
        let mut c = Chooser { path, depth: 0, choices: 0 };
        f(&mut c);
        runs += 1;
        path = c.path;
        path.truncate(c.depth);
        loop {
            match path.last_mut() {
                None => return runs,
                Some(l) => {
                    if l.0 + 1 < l.1 {
                        l.0 += 1;
                        break;
                    }
                    path.pop();
                }
            }
        }
    }
}

/// All vectors in prod(0..dom[i]).
pub fn product(dom: &[usize]) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for &d in dom {
        let mut nxt = Vec::with_capacity(out.len() * d);
        for o in &out {
            for v in 0..d {
                let mut x: Vec<usize> = o.clone();
                x.push(v);
                nxt.push(x);
            }
        }
        out = nxt;
    }
    out
}
/// All vectors of length n over `dom`.
pub fn tuples<T: Clone>(dom: &[T], n: usize) -> Vec<Vec<T>> {
    product(&vec![dom.len(); n])
        .into_iter()
        .map(|v| v.into_iter().map(|i| dom[i].clone()).collect())
        .collect()
}

/// Runs `f` on every case with a pool of OS threads (order-independent).
pub fn par_for<T: Sync, Fun: Fn(usize, &T) + Sync>(cases: &[T], f: Fun) {
    let next = AtomicUsize::new(0);
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    std::thread::scope(|s| {
        for _ in 0..n {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= cases.len() {
                        return;
                    }
                    f(i, &cases[i]);
                })
                .unwrap();
        }
    });
}
