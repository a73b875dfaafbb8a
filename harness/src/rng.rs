//! Deterministic pseudo random number generator (splitmix64 + xorshift).
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut r = Self(seed ^ 0x9e37_79b9_7f4a_7c15);
		r.next();
		r.next();
		r
	}

	pub fn derive(a: u64, b: u64, c: u64) -> Self {
		let mut r = Self::new(a);
		let x = r.next() ^ b.wrapping_mul(0xbf58_476d_1ce4_e5b9);
		let mut r = Self::new(x);
		let y = r.next() ^ c.wrapping_mul(0x94d0_49bb_1331_11eb);
		Self::new(y)
	}

	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
		z ^ (z >> 31)
	}

	/// Uniform number in `0..n`.
	pub fn below(&mut self, n: usize) -> usize {
		assert!(n > 0);
		(self.next() % n as u64) as usize
	}

	/// Uniform number in `a..=b`.
	pub fn range(&mut self, a: usize, b: usize) -> usize {
		a + self.below(b - a + 1)
	}

	/// True with probability `p`%.
	pub fn pct(&mut self, p: u32) -> bool {
		self.below(100) < p as usize
	}

	pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
		&items[self.below(items.len())]
	}

	pub fn shuffle<T>(&mut self, items: &mut [T]) {
		for i in (1..items.len()).rev() {
			let j = self.below(i + 1);
			items.swap(i, j);
		}
	}
}
