//! Boring fixed-capacity unsigned big integer, base 2^64 (the code under test
//! works in base 10^9, so the representations share nothing).
use std::cmp::Ordering;
use std::sync::OnceLock;

pub const L: usize = 16; // 1024 bits, 308 decimal digits

#[derive(Clone, Copy)]
pub struct Big {
    n: usize, // used limbs, no leading zero limb
    d: [u64; L],
}

impl PartialEq for Big {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Big {}
impl PartialOrd for Big {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Big {
    fn cmp(&self, o: &Self) -> Ordering {
        if self.n != o.n {
            return self.n.cmp(&o.n);
        }
        for i in (0..self.n).rev() {
            if self.d[i] != o.d[i] {
                return self.d[i].cmp(&o.d[i]);
            }
        }
        Ordering::Equal
    }
}
impl std::fmt::Debug for Big {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.to_dec())
    }
}

static POW10: OnceLock<Vec<Big>> = OnceLock::new();

pub fn pow10(k: usize) -> &'static Big {
    let t = POW10.get_or_init(|| {
        let mut v = vec![Big::from_u64(1)];
        for i in 0..300 {
            let x: Big = v[i];
            v.push(x.mul_small(10));
        }
        v
    });
    &t[k]
}

impl Big {
    pub fn zero() -> Big {
        Big { n: 0, d: [0; L] }
    }
    pub fn from_u64(x: u64) -> Big {
        let mut b = Big::zero();
        if x != 0 {
            b.d[0] = x;
            b.n = 1;
        }
        b
    }
    pub fn is_zero(&self) -> bool {
        self.n == 0
    }
    fn trim(&mut self) {
        while self.n > 0 && self.d[self.n - 1] == 0 {
            self.n -= 1;
        }
    }
    pub fn bits(&self) -> usize {
        if self.n == 0 {
            0
        } else {
            self.n * 64 - self.d[self.n - 1].leading_zeros() as usize
        }
    }
    pub fn add(&self, o: &Big) -> Big {
        let mut r = Big::zero();
        let m = self.n.max(o.n);
        let mut c = 0u128;
        for i in 0..m {
            let s = self.d[i] as u128 + o.d[i] as u128 + c;
            r.d[i] = s as u64;
            c = s >> 64;
        }
        r.n = m;
        if c != 0 {
            r.d[m] = c as u64;
            r.n = m + 1;
        }
        r
    }
    /// self - o; panics (a harness bug) if o > self
    pub fn sub(&self, o: &Big) -> Big {
        let mut r = Big::zero();
        let mut b = false;
        assert!(o.n <= self.n, "model underflow");
        for i in 0..self.n {
            let (x, b1) = self.d[i].overflowing_sub(o.d[i]);
            let (y, b2) = x.overflowing_sub(b as u64);
            r.d[i] = y;
            b = b1 || b2;
        }
        assert!(!b, "model underflow");
        r.n = self.n;
        r.trim();
        r
    }
    pub fn mul_small(&self, m: u64) -> Big {
        let mut r = Big::zero();
        let mut c = 0u128;
        for i in 0..self.n {
            let s = self.d[i] as u128 * m as u128 + c;
            r.d[i] = s as u64;
            c = s >> 64;
        }
        r.n = self.n;
        if c != 0 {
            r.d[r.n] = c as u64;
            r.n += 1;
        }
        r.trim();
        r
    }
    pub fn mul(&self, o: &Big) -> Big {
        let mut r = Big::zero();
        if self.n == 0 || o.n == 0 {
            return r;
        }
        assert!(self.n + o.n <= L, "model capacity");
        for i in 0..self.n {
            let mut c = 0u128;
            for j in 0..o.n {
                let s = self.d[i] as u128 * o.d[j] as u128 + r.d[i + j] as u128 + c;
                r.d[i + j] = s as u64;
                c = s >> 64;
            }
            r.d[i + o.n] = c as u64;
        }
        r.n = self.n + o.n;
        r.trim();
        r
    }
    pub fn mul_pow10(&self, k: usize) -> Big {
        if k == 0 {
            *self
        } else {
            self.mul(pow10(k))
        }
    }
    pub fn shl(&self, k: usize) -> Big {
        let mut r = Big::zero();
        if self.n == 0 {
            return r;
        }
        let (w, s) = (k / 64, k % 64);
        assert!(self.n + w + 1 <= L, "model capacity");
        for i in 0..self.n {
            r.d[i + w] |= self.d[i] << s;
            if s != 0 {
                r.d[i + w + 1] |= self.d[i] >> (64 - s);
            }
        }
        r.n = self.n + w + 1;
        r.trim();
        r
    }
    /// the top `k` bits (k <= 64) as an integer; requires bits() >= k
    fn top(&self, k: usize) -> u64 {
        let sh = self.bits() - k;
        let (w, s) = (sh / 64, sh % 64);
        let lo = self.d[w] >> s;
        let hi = if s != 0 && w + 1 < L { self.d[w + 1] << (64 - s) } else { 0 };
        let v = lo | hi;
        if k == 64 {
            v
        } else {
            v & ((1u64 << k) - 1)
        }
    }
    /// Quotient and remainder. Only ever subtracts multiples of `b` from the
    /// remainder while adding the same factor to the quotient, and stops when
    /// the remainder is below `b`: self = q*b + r holds by construction
    /// (`sub` asserts that no step goes below zero).
    pub fn divrem(&self, b: &Big) -> (Big, Big) {
        assert!(!b.is_zero());
        let mut q = Big::zero();
        let mut r = *self;
        let bb = b.bits();
        // upper bound of b's leading bits
        let (bt, bsh) = if bb <= 32 { (b.d[0] as u128, 0) } else { (b.top(32) as u128 + 1, bb - 32) };
        while r >= *b {
            let rb = r.bits();
            let (rt, rsh) = if rb <= 64 { (r.d[0] as u128, 0) } else { (r.top(64) as u128, rb - 64) };
            let mut t = rt / bt;
            let sh;
            if rsh >= bsh {
                sh = rsh - bsh;
            } else {
                sh = 0;
                t = t.checked_shr((bsh - rsh) as u32).unwrap_or(0);
            }
            let f = if t == 0 { Big::from_u64(1) } else { Big::from_u64(u64::try_from(t).unwrap()).shl(sh) };
            r = r.sub(&b.mul(&f));
            q = q.add(&f);
        }
        (q, r)
    }
    /// number of decimal digits, 0 for zero
    pub fn ndigits(&self) -> usize {
        if self.n == 0 {
            return 0;
        }
        let mut k = (self.bits() - 1) * 30103 / 100000; // floor(log10(2^(bits-1))), at most one off
        if k > 0 {
            k -= 1;
        }
        while *pow10(k) <= *self {
            k += 1;
        }
        k
    }
    /// parse ASCII digits (caller guarantees digits)
    pub fn from_digits(s: &[u8]) -> Big {
        let mut r = Big::zero();
        r.push_digits(s);
        r
    }
    pub fn push_digits(&mut self, s: &[u8]) {
        for c in s.chunks(18) {
            let mut v = 0u64;
            let mut m = 1u64;
            for x in c {
                v = v * 10 + (*x - b'0') as u64;
                m *= 10;
            }
            // self = self * m + v
            let mut carry = v as u128;
            for i in 0..self.n {
                let s = self.d[i] as u128 * m as u128 + carry;
                self.d[i] = s as u64;
                carry = s >> 64;
            }
            if carry != 0 {
                self.d[self.n] = carry as u64;
                self.n += 1;
            }
        }
    }
    pub fn to_dec(&self) -> String {
        if self.n == 0 {
            return "0".into();
        }
        let mut x = *self;
        let mut parts = vec![];
        const P: u64 = 1_000_000_000_000_000_000;
        while x.n > 0 {
            let mut rem = 0u128;
            for i in (0..x.n).rev() {
                let v = (rem << 64) | x.d[i] as u128;
                x.d[i] = (v / P as u128) as u64;
                rem = v % P as u128;
            }
            x.trim();
            parts.push(rem as u64);
        }
        let mut s = format!("{}", parts.pop().unwrap());
        while let Some(p) = parts.pop() {
            s.push_str(&format!("{:018}", p));
        }
        s
    }
    pub fn to_u64(&self) -> Option<u64> {
        match self.n {
            0 => Some(0),
            1 => Some(self.d[0]),
            _ => None,
        }
    }
    pub fn mix(&self, mut h: u64) -> u64 {
        for i in 0..self.n {
            h = (h ^ self.d[i]).wrapping_mul(0x9E3779B97F4A7C15);
            h ^= h >> 29;
        }
        h
    }
}

/// The model's own sanity: identities against u128 and internal consistency.
pub fn selftest() {
    let xs: Vec<u128> = {
        let mut v = vec![0u128, 1, 2, 3, 9, 10, 11, u64::MAX as u128, u64::MAX as u128 + 1, u128::MAX >> 1];
        let mut s: u128 = 0x1234_5678_9abc_def1;
        for i in 0..60 {
            s = s.wrapping_mul(0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C835).wrapping_add(0x1337);
            v.push(s >> (i % 100) >> 1);
        }
        v
    };
    let b = |x: u128| Big::from_digits(x.to_string().as_bytes());
    for &x in &xs {
        assert_eq!(b(x).to_dec(), x.to_string());
        assert_eq!(b(x).ndigits(), if x == 0 { 0 } else { x.to_string().len() });
        for &y in &xs {
            assert_eq!(b(x).cmp(&b(y)), x.cmp(&y));
            if let Some(z) = x.checked_add(y) {
                assert_eq!(b(x).add(&b(y)).to_dec(), z.to_string());
            }
            if x >= y {
                assert_eq!(b(x).sub(&b(y)).to_dec(), (x - y).to_string());
            }
            if let Some(z) = x.checked_mul(y) {
                assert_eq!(b(x).mul(&b(y)).to_dec(), z.to_string());
            }
            if y != 0 {
                let (q, r) = b(x).divrem(&b(y));
                assert_eq!((q.to_dec(), r.to_dec()), ((x / y).to_string(), (x % y).to_string()));
            }
            // wide identity
            let w = b(x).mul(&b(y)).mul(&b(x)).add(&b(y));
            let m = b(y).mul(&b(y)).add(&Big::from_u64(7));
            let (q, r) = w.divrem(&m);
            assert!(r < m);
            assert_eq!(q.mul(&m).add(&r), w);
            assert_eq!(Big::from_digits(w.to_dec().as_bytes()), w);
        }
    }
    for k in 0..250 {
        assert_eq!(pow10(k).ndigits(), k + 1);
        let s = format!("1{}", "0".repeat(k));
        assert_eq!(pow10(k).to_dec(), s);
        if k > 0 {
            assert_eq!(pow10(k).sub(&Big::from_u64(1)).ndigits(), k);
        }
    }
}
