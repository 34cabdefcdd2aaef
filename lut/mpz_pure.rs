// The same small interface as mpz.rs in plain Rust, for Miri (slow, but the
// interpreted workload only needs small tables).
#[allow(dead_code)]
mod mpz {
    pub struct Z(Vec<u64>);
    fn trim(mut v: Vec<u64>) -> Z {
        while v.last() == Some(&0) {
            v.pop();
        }
        Z(v)
    }
    fn cmp(a: &[u64], b: &[u64]) -> std::cmp::Ordering {
        a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
    }
    impl Z {
        pub fn new() -> Z { Z(Vec::new()) }
        pub fn pow(b: u64, e: u64) -> Z {
            let mut v = vec![1u64];
            let mut left = e;
            while left > 0 {
                // as many factors at once as fit a limb
                let (mut f, mut k) = (1u64, 0);
                while k < left {
                    match f.checked_mul(b) {
                        Some(x) => f = x,
                        None => break,
                    }
                    k += 1;
                }
                let mut c = 0u128;
                for x in &mut v {
                    c += *x as u128 * f as u128;
                    *x = c as u64;
                    c >>= 64;
                }
                if c > 0 {
                    v.push(c as u64);
                }
                left -= k;
            }
            trim(v)
        }
        pub fn one() -> Z { Z(vec![1]) }
        pub fn shl(&self, n: u64) -> Z {
            let (w, s) = ((n / 64) as usize, (n % 64) as u32);
            let mut v = vec![0; w];
            let mut c = 0u64;
            for x in &self.0 {
                v.push(x << s | c);
                c = if s > 0 { x >> (64 - s) } else { 0 };
            }
            v.push(c);
            trim(v)
        }
        pub fn shr(&self, n: u64) -> Z {
            let (w, s) = ((n / 64) as usize, (n % 64) as u32);
            let mut v = Vec::new();
            for i in w..self.0.len() {
                let hi = self.0.get(i + 1).copied().unwrap_or(0);
                v.push(if s > 0 { self.0[i] >> s | hi << (64 - s) } else { self.0[i] });
            }
            trim(v)
        }
        fn sub_in(a: &mut Vec<u64>, b: &[u64]) {
            let mut br = false;
            for i in 0..a.len() {
                let (x, p) = a[i].overflowing_sub(b.get(i).copied().unwrap_or(0));
                let (x, q) = x.overflowing_sub(br as u64);
                a[i] = x;
                br = p | q;
            }
            while a.last() == Some(&0) {
                a.pop();
            }
        }
        /// Schoolbook division with 32-bit digits (Knuth, algorithm D).
        fn divmod(&self, d: &Z) -> (Z, Z) {
            assert!(!d.0.is_empty());
            if cmp(&self.0, &d.0).is_lt() {
                return (Z::new(), trim(self.0.clone()));
            }
            let s = d.0.last().unwrap().leading_zeros() as u64;
            let h = |z: Z| -> Vec<u64> {
                let mut v: Vec<u64> = z.0.iter().flat_map(|x| [x & 0xffff_ffff, x >> 32]).collect();
                while v.last() == Some(&0) {
                    v.pop();
                }
                v
            };
            let (mut u, v) = (h(self.shl(s)), h(d.shl(s)));
            u.push(0);
            let n = v.len();
            let m = u.len() - n - 1;
            let mut q = vec![0u64; m + 1];
            for j in (0..=m).rev() {
                let top = u[j + n] << 32 | u[j + n - 1];
                let mut qh = top / v[n - 1];
                let mut rh = top % v[n - 1];
                while qh >> 32 != 0 || (n > 1 && qh * v[n - 2] > (rh << 32 | u[j + n - 2])) {
                    qh -= 1;
                    rh += v[n - 1];
                    if rh >> 32 != 0 {
                        break;
                    }
                }
                let (mut br, mut c) = (0i64, 0u64);
                for i in 0..n {
                    c += qh * v[i];
                    let t = u[i + j] as i64 - br - (c & 0xffff_ffff) as i64;
                    u[i + j] = t as u64 & 0xffff_ffff;
                    br = (t < 0) as i64;
                    c >>= 32;
                }
                let t = u[j + n] as i64 - br - c as i64;
                u[j + n] = t as u64 & 0xffff_ffff;
                if t < 0 {
                    qh -= 1;
                    let mut c = 0;
                    for i in 0..n {
                        c += u[i + j] + v[i];
                        u[i + j] = c & 0xffff_ffff;
                        c >>= 32;
                    }
                    u[j + n] = (u[j + n] + c) & 0xffff_ffff;
                }
                q[j] = qh;
            }
            let pack = |v: Vec<u64>| -> Z {
                trim(v.chunks(2).map(|c| c[0] | c.get(1).copied().unwrap_or(0) << 32).collect())
            };
            (pack(q), pack(u).shr(s))
        }
        pub fn div(&self, d: &Z) -> Z { self.divmod(d).0 }
        pub fn rem(&self, d: &Z) -> Z { self.divmod(d).1 }
        pub fn add_ui(&self, n: u64) -> Z {
            let mut v = self.0.clone();
            let mut c = n;
            for x in &mut v {
                let (y, o) = x.overflowing_add(c);
                *x = y;
                c = o as u64;
            }
            v.push(c);
            trim(v)
        }
        pub fn bits(&self) -> u64 {
            match self.0.last() {
                None => 1,
                Some(t) => self.0.len() as u64 * 64 - t.leading_zeros() as u64,
            }
        }
        pub fn limbs(&self) -> [u64; 8] {
            assert!(self.bits() <= 512);
            let mut o = [0; 8];
            o[..self.0.len()].copy_from_slice(&self.0);
            o
        }
    }
    pub fn w(l: &[u64; 8], i: usize) -> u128 {
        (l[2 * i + 1] as u128) << 64 | l[2 * i] as u128
    }
}
