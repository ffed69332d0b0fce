#![allow(missing_docs, missing_debug_implementations)]
//! Controlled scheduling. `planned` installs a plan for the calling thread.
use std::cell::RefCell;

/// What may happen to the second half of a fork.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fate {
    /// the forking thread runs it after the first half
    Kept,
    /// another thread steals it; it finishes after the first half
    StolenLate,
    /// another thread steals it and finishes it before the first half starts
    StolenEarly,
}
/// one execution: pool size, whether the caller is outside of the pool, and the fates of the
/// forks in the order in which they are reached
pub struct Plan {
    pub threads: usize,
    pub external: bool,
    pub fate: Box<dyn FnMut(usize) -> Fate>,
}
struct State {
    plan: Plan,
    forks: usize,
    depth: usize,
}
thread_local!(static STATE: RefCell<Option<State>> = RefCell::new(None));

/// run `f` under `plan`; also returns the number of forks reached
pub fn planned<R>(plan: Plan, f: impl FnOnce() -> R) -> (R, usize) {
    STATE.with(|s| *s.borrow_mut() = Some(State { plan, forks: 0, depth: 0 }));
    struct Clear;
    impl Drop for Clear {
        fn drop(&mut self) {
            STATE.with(|s| *s.borrow_mut() = None);
        }
    }
    let _clear = Clear;
    let r = f();
    let n = STATE.with(|s| s.borrow().as_ref().map_or(0, |s| s.forks));
    (r, n)
}
pub fn threads() -> Option<usize> {
    STATE.with(|s| s.borrow().as_ref().map(|s| s.plan.threads))
}
struct Deep(bool);
impl Drop for Deep {
    fn drop(&mut self) {
        if self.0 {
            STATE.with(|s| {
                if let Some(s) = s.borrow_mut().as_mut() {
                    s.depth -= 1
                }
            })
        }
    }
}
/// fork under the plan, if there is one; the halves are told whether they migrated
pub fn fork<A, B, RA, RB>(a: A, b: B) -> Result<(RA, RB), (A, B)>
where
    A: FnOnce(bool) -> RA,
    B: FnOnce(bool) -> RB,
{
    let next = STATE.with(|s| {
        s.borrow_mut().as_mut().map(|s| {
            let n = s.forks;
            s.forks += 1;
            let injected = s.depth == 0 && s.plan.external;
            s.depth += 1;
            let fate = (s.plan.fate)(n);
            // a pool of one thread has no thieves
            (injected, if s.plan.threads > 1 { fate } else { Fate::Kept })
        })
    });
    let (injected, fate) = match next {
        None => return Err((a, b)),
        Some(x) => x,
    };
    let _deep = Deep(true);
    Ok(match fate {
        Fate::Kept | Fate::StolenLate => {
            let x = a(injected);
            let y = b(fate != Fate::Kept);
            (x, y)
        }
        Fate::StolenEarly => {
            let y = b(true);
            let x = a(injected);
            (x, y)
        }
    })
}
/// `rayon::join` under plans
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    match fork(move |_| a(), move |_| b()) {
        Ok(r) => r,
        Err((a, b)) => rayon_core::join(move || a(false), move || b(false)),
    }
}
pub fn current_num_threads() -> usize {
    threads().unwrap_or_else(rayon_core::current_num_threads)
}
