//! Decoding of a choice sequence (a vector of u64) into structured inputs.
//! Every generated case is a pure function of its choice sequence, so proptest can shrink the
//! sequence (removing choices, lowering values) and a replay file only has to hold the sequence.
//! An exhausted sequence yields 0, and 0 always decodes to the simplest alternative.

use amcl_wrapper::constants::MODBYTES;
use amcl_wrapper::field_elem::FieldElement;

pub struct Src<'a> {
    data: &'a [u64],
    pos: usize,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Field element from a u64, without the single-limb conversion of the library.
pub fn fe(x: u64) -> FieldElement {
    let mut b = [0u8; MODBYTES];
    b[MODBYTES - 8..].copy_from_slice(&x.to_be_bytes());
    FieldElement::from(&b)
}

/// Pseudo-random field element, a function of the seed only.
pub fn fe_seed(seed: u64) -> FieldElement {
    let mut b = [0u8; MODBYTES];
    let mut s = seed;
    for c in b.chunks_mut(8) {
        s = mix(s);
        c.copy_from_slice(&s.to_be_bytes()[..c.len()]);
    }
    FieldElement::from(&b)
}

impl<'a> Src<'a> {
    pub fn new(data: &'a [u64]) -> Self {
        Src { data, pos: 0 }
    }
    pub fn u(&mut self) -> u64 {
        let r = self.data.get(self.pos).cloned().unwrap_or(0);
        self.pos += 1;
        r
    }
    /// The next choice, without consuming it
    pub fn peek(&self) -> u64 {
        self.data.get(self.pos).cloned().unwrap_or(0)
    }
    /// Uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        (self.u() % n as u64) as usize
    }
    /// Uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den; the zero choice is false
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.below(xs.len())]
    }
    /// Field element with a bias to special values
    pub fn fe(&mut self) -> FieldElement {
        match self.below(16) {
            0 => FieldElement::zero(),
            1 => FieldElement::one(),
            2 => FieldElement::minus_one(),
            3 => fe(2),
            4 => fe(self.u() % 256),
            5 => fe(self.u()),
            6 => {
                // powers of two, up to beyond the order
                let k = self.below(260);
                let mut r = FieldElement::one();
                for _ in 0..k {
                    r = &r + &r;
                }
                r
            }
            7 => fe(self.u() % 1024).negation(),
            _ => fe_seed(self.u()),
        }
    }
    /// Non-zero field element
    pub fn fe_nz(&mut self) -> FieldElement {
        let r = self.fe();
        if r.is_zero() {
            FieldElement::one()
        } else {
            r
        }
    }
    /// Uniform (pseudo-random) field element
    pub fn fe_rand(&mut self) -> FieldElement {
        fe_seed(self.u())
    }
    /// 64-bit integer with a bias to boundary values
    pub fn int(&mut self) -> u64 {
        match self.below(8) {
            0 => self.u() % 16,
            1 => {
                let k = self.below(64) as u32;
                1u64 << k
            }
            2 => {
                let k = self.below(65) as u32;
                if k == 64 {
                    u64::max_value()
                } else {
                    (1u64 << k).wrapping_sub(1)
                }
            }
            3 => u64::max_value() - self.u() % 8,
            4 => self.u() % 1000,
            5 => self.u() >> self.below(64),
            _ => self.u(),
        }
    }
    pub fn used(&self) -> usize {
        self.pos
    }
}
