//! The choice sequence from which every case is decoded. proptest generates (and shrinks) the
//! sequence; libFuzzer mutates it as bytes. An exhausted sequence yields zeros.

use std::borrow::Cow;
use std::sync::atomic::AtomicBool;

pub static LARGE: AtomicBool = AtomicBool::new(true);

pub struct Src<'a> {
    data: Cow<'a, [u32]>,
    pos: usize,
}

impl<'a> Src<'a> {
    pub fn new(data: &'a [u32]) -> Self {
        Src { data: Cow::Borrowed(data), pos: 0 }
    }

    pub fn owned(data: Vec<u32>) -> Self {
        Src { data: Cow::Owned(data), pos: 0 }
    }

    pub fn raw(&mut self) -> u32 {
        let x = self.data.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        x
    }

    /// Uniform in 0..k; 0 when k is 0. Monotone in the choice, so smaller choices are smaller values.
    pub fn below(&mut self, k: usize) -> usize {
        if k <= 1 {
            return 0;
        }
        ((self.raw() as u64 * k as u64) >> 32) as usize
    }

    /// Whether this case is one of the few large ones: 1 in `den`. Never under libFuzzer, which would
    /// keep to them.
    pub fn large(&mut self, den: usize) -> bool {
        let yes = self.chance(1, den);
        yes && LARGE.load(std::sync::atomic::Ordering::Relaxed)
    }

    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    /// True with probability num/den; a zero choice is false.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }

    pub fn pick<T: Copy>(&mut self, items: &[T]) -> T {
        items[self.below(items.len())]
    }

    pub fn word(&mut self) -> u64 {
        ((self.raw() as u64) << 32) | self.raw() as u64
    }

    /// A long sequence expanded from one choice, for bulk choices of large cases.
    pub fn bulk(&mut self, len: usize) -> Vec<u32> {
        let mut s = self.word();
        if s == 0 {
            return vec![0; len];
        }
        (0..len)
            .map(|_| {
                s = s.wrapping_add(0x9E3779B97F4A7C15);
                let mut z = s;
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
                (z ^ (z >> 31)) as u32
            })
            .collect()
    }

    /// Fisher-Yates; zero choices leave the order alone.
    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        if items.len() > 40 {
            let b = self.bulk(items.len());
            let mut s = Src::new(&b);
            for i in 0..items.len() {
                let j = i + s.below(items.len() - i);
                items.swap(i, j);
            }
        } else {
            for i in 0..items.len() {
                let j = i + self.below(items.len() - i);
                items.swap(i, j);
            }
        }
    }
}

/// The sequence that a libFuzzer input stands for.
pub fn from_bytes(data: &[u8]) -> Vec<u32> {
    data.chunks(4)
        .map(|c| {
            let mut b = [0; 4];
            b[..c.len()].copy_from_slice(c);
            u32::from_le_bytes(b)
        })
        .collect()
}
