//! Coins under the explorer's control.
use std::cell::{Cell, RefCell};
use rand::{CryptoRng, Error, RngCore};

/// Returns scripted 64-bit words; past the script it continues with a fixed xorshift stream
/// (`tail`) so that long-lived draws stay deterministic.
#[derive(Clone, Debug)]
pub struct Coins {
    pub script: Vec<u64>,
    pub pos: usize,
    tail: u64,
    /// Some(c): every word past the script is c (constant tail)
    pub constant: Option<u64>,
    forced: bool,
}
thread_local! {
    static FORCED: RefCell<Option<Vec<u64>>> = RefCell::new(None);
    static DRAWN: Cell<usize> = Cell::new(0);
}
/// Run `f` with the given words in place of the next stream it opens with `Coins::seeded`;
/// also tells how many words were drawn from it.
pub fn forced<T>(words: Vec<u64>, f: impl FnOnce() -> T) -> (T, usize) {
    FORCED.with(|x| *x.borrow_mut() = Some(words));
    DRAWN.with(|d| d.set(0));
    let r = f();
    FORCED.with(|x| *x.borrow_mut() = None);
    (r, DRAWN.with(|d| d.get()))
}
impl Coins {
    pub fn script(script: Vec<u64>) -> Self {
        Coins { script, pos: 0, tail: 0x9E3779B97F4A7C15, constant: None, forced: false }
    }
    pub fn seeded(seed: u64) -> Self {
        if let Some(s) = FORCED.with(|f| f.borrow_mut().take()) {
            DRAWN.with(|d| d.set(0));
            let mut c = Coins::script(s);
            c.forced = true;
            return c;
        }
        let mut c = Coins::script(vec![]);
        c.tail ^= seed.wrapping_mul(0xD1342543DE82EF95).wrapping_add(0x1234567);
        if c.tail == 0 {
            c.tail = 1;
        }
        for _ in 0..8 {
            c.next_u64();
        }
        c.pos = 0;
        c
    }
    /// seeded stream with draw number `at` replaced by `v`
    pub fn seeded_with(seed: u64, at: usize, v: u64) -> Self {
        let mut c = Coins::seeded(seed);
        let mut base = c.clone();
        let s: Vec<u64> = (0..at).map(|_| base.next_u64()).collect();
        c.script = s;
        c.script.push(v);
        base.next_u64();
        c.tail = base.tail;
        c
    }
    pub fn drawn(&self) -> usize {
        self.pos
    }
}
impl RngCore for Coins {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let i = self.pos;
        self.pos += 1;
        if self.forced {
            DRAWN.with(|d| d.set(self.pos));
        }
        if i < self.script.len() {
            return self.script[i];
        }
        if let Some(c) = self.constant {
            return c;
        }
        // splitmix64
        self.tail = self.tail.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.tail;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for ch in dest.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            let l = ch.len();
            ch.copy_from_slice(&w[..l]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Coins {}

/// Every draw is a choice point: word = choose(n).
pub struct ChoiceRng<'a> {
    pub ch: &'a mut crate::enumerate::Chooser,
    pub n: usize,
    pub draws: usize,
}
impl<'a> RngCore for ChoiceRng<'a> {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.draws += 1;
        self.ch.choose(self.n) as u64
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for ch in dest.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            let l = ch.len();
            ch.copy_from_slice(&w[..l]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl<'a> CryptoRng for ChoiceRng<'a> {}
