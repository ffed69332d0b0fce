//! Transcript observation and challenge scripting (per thread).
use std::cell::RefCell;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    New(&'static [u8]),
    Append(&'static [u8], Vec<u8>),
    Challenge(&'static [u8], Vec<u8>),
}
/// (label, position among the challenges of this run, output buffer)
pub type Script = Box<dyn FnMut(&'static [u8], usize, &mut [u8])>;

thread_local! {
    static LOG: RefCell<Option<Vec<Ev>>> = RefCell::new(None);
    static SCRIPT: RefCell<Option<(usize, Script)>> = RefCell::new(None);
}
/// Run `f` with logging on.
pub fn logged<T>(f: impl FnOnce() -> T) -> (T, Vec<Ev>) {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            LOG.with(|l| *l.borrow_mut() = None);
        }
    }
    LOG.with(|l| *l.borrow_mut() = Some(vec![]));
    let g = G;
    let r = f();
    let log = LOG.with(|l| l.borrow_mut().take().unwrap());
    drop(g);
    (r, log)
}
/// Run `f` with every challenge produced by `s`.
pub fn scripted<T>(s: Script, f: impl FnOnce() -> T) -> T {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            SCRIPT.with(|l| *l.borrow_mut() = None);
        }
    }
    SCRIPT.with(|l| *l.borrow_mut() = Some((0, s)));
    let _g = G;
    f()
}
pub(crate) fn event(e: impl FnOnce() -> Ev) {
    LOG.with(|l| {
        if let Some(v) = l.borrow_mut().as_mut() {
            v.push(e());
        }
    })
}
pub fn challenge(label: &'static [u8], dest: &mut [u8]) {
    SCRIPT.with(|s| {
        if let Some((n, f)) = s.borrow_mut().as_mut() {
            f(label, *n, dest);
            *n += 1;
        }
    });
    event(|| Ev::Challenge(label, dest.to_vec()));
}
