use std::cell::RefCell;

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}
pub fn mix(a: u64, b: u64) -> u64 {
    Rng(a ^ b.wrapping_mul(0xD6E8FEB86659FD93).rotate_left(23)).next()
}

pub enum Mode {
    Gen(Rng),
    Replay(Vec<u64>),
}
pub struct Source {
    mode: Mode,
    pos: usize,
    pub rec: Vec<u64>,
    pub limit: usize,
    pub overrun: bool,
}
impl Source {
    pub fn gen(seed: u64) -> Self {
        Source { mode: Mode::Gen(Rng(seed)), pos: 0, rec: Vec::new(), limit: 200_000, overrun: false }
    }
    pub fn replay(v: Vec<u64>) -> Self {
        Source { mode: Mode::Replay(v), pos: 0, rec: Vec::new(), limit: 200_000, overrun: false }
    }
    fn draw(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        if self.rec.len() >= self.limit {
            self.overrun = true;
            return 0;
        }
        let v = match &mut self.mode {
            Mode::Gen(r) => r.next() % n,
            Mode::Replay(d) => {
                let v = d.get(self.pos).copied().unwrap_or(0);
                if v >= n { v % n } else { v }
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
}
thread_local! {
    static SRC: RefCell<Option<Source>> = const { RefCell::new(None) };
}
pub fn install(s: Source) {
    SRC.with(|c| *c.borrow_mut() = Some(s));
}
pub fn take() -> Option<Source> {
    SRC.with(|c| c.borrow_mut().take())
}
/// A number in 0..n; 0 is the simplest choice.
pub fn choose(n: u64) -> u64 {
    SRC.with(|c| match c.borrow_mut().as_mut() {
        Some(s) => s.draw(n),
        None => 0,
    })
}
/// true with probability num/den; false is the simplest.
pub fn chance(num: u64, den: u64) -> bool {
    // value >= den-num  => true, so that 0 => false
    choose(den) >= den - num
}
