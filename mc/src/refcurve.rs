//! Independent reference for the Ed25519 curve: field with 4x64-bit limbs, complete projective
//! twisted-Edwards addition, decompression by Euler's criterion. Shares no code with kyber-rs.
use num_bigint_dig::BigUint;

#[derive(Clone, Copy, Debug)]
pub struct Fp(pub [u64; 4]);

const P: [u64; 4] = [0xffffffffffffffed, 0xffffffffffffffff, 0xffffffffffffffff, 0x7fffffffffffffff];

fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn sub_raw(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    let mut r = [0u64; 4];
    let mut bor = 0i128;
    for i in 0..4 {
        let t = a[i] as i128 - b[i] as i128 + bor;
        r[i] = t as u64;
        bor = t >> 64;
    }
    r
}
fn norm(mut a: [u64; 4]) -> Fp {
    while geq(&a, &P) {
        a = sub_raw(&a, &P);
    }
    Fp(a)
}
impl Fp {
    pub const ZERO: Fp = Fp([0; 4]);
    pub const ONE: Fp = Fp([1, 0, 0, 0]);
    pub fn n(v: u64) -> Fp {
        Fp([v, 0, 0, 0])
    }
    pub fn add(self, o: Fp) -> Fp {
        let mut r = [0u64; 4];
        let mut c = 0u128;
        for i in 0..4 {
            let t = self.0[i] as u128 + o.0[i] as u128 + c;
            r[i] = t as u64;
            c = t >> 64;
        }
        norm(r) // both < 2^255 so no carry out
    }
    pub fn neg(self) -> Fp {
        if self.is_zero() {
            self
        } else {
            Fp(sub_raw(&P, &self.0))
        }
    }
    pub fn sub(self, o: Fp) -> Fp {
        self.add(o.neg())
    }
    pub fn mul(self, o: Fp) -> Fp {
        let mut w = [0u64; 8];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                let t = self.0[i] as u128 * o.0[j] as u128 + w[i + j] as u128 + c;
                w[i + j] = t as u64;
                c = t >> 64;
            }
            w[i + 4] = c as u64;
        }
        // 2^256 = 38 (mod p)
        let mut r = [0u64; 4];
        let mut c = 0u128;
        for i in 0..4 {
            let t = w[i] as u128 + 38 * w[i + 4] as u128 + c;
            r[i] = t as u64;
            c = t >> 64;
        }
        let mut c = c * 38;
        loop {
            for limb in r.iter_mut() {
                let t = *limb as u128 + c;
                *limb = t as u64;
                c = t >> 64;
            }
            if c == 0 {
                break;
            }
            c *= 38;
        }
        norm(r)
    }
    pub fn sq(self) -> Fp {
        self.mul(self)
    }
    pub fn is_zero(self) -> bool {
        self.0 == [0; 4]
    }
    pub fn odd(self) -> bool {
        self.0[0] & 1 == 1
    }
    pub fn eq(self, o: Fp) -> bool {
        self.0 == o.0
    }
    pub fn pow(self, e: &[u64; 4]) -> Fp {
        let mut r = Fp::ONE;
        for i in (0..256).rev() {
            r = r.sq();
            if (e[i / 64] >> (i % 64)) & 1 == 1 {
                r = r.mul(self);
            }
        }
        r
    }
    pub fn inv(self) -> Fp {
        self.pow(&sub_raw(&P, &[2, 0, 0, 0]))
    }
    /// little-endian bytes with the top bit ignored, reduced modulo p
    pub fn from_bytes(b: &[u8; 32]) -> Fp {
        let mut r = [0u64; 4];
        for i in 0..4 {
            r[i] = u64::from_le_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
        }
        r[3] &= 0x7fff_ffff_ffff_ffff;
        norm(r)
    }
    pub fn to_bytes(self) -> [u8; 32] {
        let mut b = [0u8; 32];
        for i in 0..4 {
            b[i * 8..i * 8 + 8].copy_from_slice(&self.0[i].to_le_bytes());
        }
        b
    }
    pub fn sqrt(self) -> Option<Fp> {
        // (p+3)/8
        let e = [0xfffffffffffffffe, 0xffffffffffffffff, 0xffffffffffffffff, 0x0fffffffffffffff];
        let r = self.pow(&e);
        if r.sq().eq(self) {
            return Some(r);
        }
        // times sqrt(-1) = 2^((p-1)/4)
        let i = Fp::n(2).pow(&[0xfffffffffffffffb, 0xffffffffffffffff, 0xffffffffffffffff, 0x1fffffffffffffff]);
        let r = r.mul(i);
        if r.sq().eq(self) {
            return Some(r);
        }
        None
    }
}

pub fn d() -> Fp {
    Fp::n(121665).neg().mul(Fp::n(121666).inv())
}
thread_local! { static D: Fp = d(); }

/// projective point (X:Y:Z), x = X/Z, y = Y/Z
#[derive(Clone, Copy, Debug)]
pub struct Rp {
    pub x: Fp,
    pub y: Fp,
    pub z: Fp,
}
impl Rp {
    pub fn zero() -> Rp {
        Rp { x: Fp::ZERO, y: Fp::ONE, z: Fp::ONE }
    }
    pub fn base() -> Rp {
        let y = Fp::n(4).mul(Fp::n(5).inv());
        let mut r = Rp::from_y(y).unwrap();
        if r.x.odd() {
            r = r.neg();
        }
        r
    }
    /// some point with this y
    pub fn from_y(y: Fp) -> Option<Rp> {
        let y2 = y.sq();
        let u = y2.sub(Fp::ONE);
        let v = D.with(|d| d.mul(y2)).add(Fp::ONE);
        let x = u.mul(v.inv()).sqrt()?;
        Some(Rp { x, y, z: Fp::ONE })
    }
    pub fn neg(self) -> Rp {
        Rp { x: self.x.neg(), ..self }
    }
    pub fn add(self, o: Rp) -> Rp {
        let a = self.z.mul(o.z);
        let b = a.sq();
        let c = self.x.mul(o.x);
        let dd = self.y.mul(o.y);
        let e = D.with(|d| d.mul(c).mul(dd));
        let f = b.sub(e);
        let g = b.add(e);
        let t = self.x.add(self.y).mul(o.x.add(o.y)).sub(c).sub(dd);
        Rp { x: a.mul(f).mul(t), y: a.mul(g).mul(dd.add(c)), z: f.mul(g) }
    }
    pub fn mul(self, k: &BigUint) -> Rp {
        let mut r = Rp::zero();
        for b in k.to_bytes_be() {
            for i in (0..8).rev() {
                r = r.add(r);
                if (b >> i) & 1 == 1 {
                    r = r.add(self);
                }
            }
        }
        r
    }
    pub fn eq(self, o: Rp) -> bool {
        self.x.mul(o.z).eq(o.x.mul(self.z)) && self.y.mul(o.z).eq(o.y.mul(self.z))
    }
    pub fn enc(self) -> [u8; 32] {
        let zi = self.z.inv();
        let (x, y) = (self.x.mul(zi), self.y.mul(zi));
        let mut b = y.to_bytes();
        if x.odd() {
            b[31] |= 0x80;
        }
        b
    }
    /// Does the 32-byte encoding name this point? (canonical form)
    pub fn matches(self, b: &[u8]) -> bool {
        b.len() == 32 && self.enc() == b
    }
    /// decode allowing non-canonical y and a stray sign bit on x = 0
    pub fn dec(b: &[u8; 32]) -> Option<Rp> {
        let mut r = Rp::from_y(Fp::from_bytes(b))?;
        if r.x.odd() != (b[31] >> 7 == 1) {
            r = r.neg();
        }
        Some(r)
    }
    pub fn is_zero(self) -> bool {
        self.x.is_zero() && self.y.eq(self.z)
    }
}
/// the eight torsion points
pub fn torsion() -> Vec<Rp> {
    // find a generator of the 8-torsion: multiply small-y points by L
    let l = crate::p_scalar::order();
    for y in 2..200u64 {
        if let Some(p) = Rp::from_y(Fp::n(y)) {
            let t = p.mul(&l);
            let t4 = t.add(t).add(t.add(t));
            if !t4.is_zero() {
                let mut v = vec![Rp::zero()];
                for i in 0..7 {
                    let n = v[i].add(t);
                    v.push(n);
                }
                return v;
            }
        }
    }
    unreachable!()
}
/// additive table d * 16^i * P
pub struct Table(Vec<Vec<Rp>>);
impl Table {
    pub fn new(p: Rp) -> Table {
        let mut t = vec![];
        let mut b = p;
        for _ in 0..64 {
            let mut row = vec![Rp::zero()];
            for i in 0..15 {
                let n: Rp = row[i];
                row.push(n.add(b));
            }
            b = row[15].add(b);
            t.push(row);
        }
        Table(t)
    }
    pub fn mul(&self, k: &[u8; 32]) -> Rp {
        let mut r = Rp::zero();
        for i in 0..64 {
            let d = (k[i / 2] >> (4 * (i % 2))) & 15;
            if d != 0 {
                r = r.add(self.0[i][d as usize]);
            }
        }
        r
    }
}
