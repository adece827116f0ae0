//! A tiny, fully enumerable implementation of the crate's own group interface: the additive group
//! Z_Q with base point 1. All generic code of the crate (poly, VSS, DKG, DSS, Schnorr, ECIES) runs
//! unchanged over it, so whole value domains and all random choices can be enumerated.
use core::fmt::{Debug, Display, Formatter};
use core::ops::{Add, Mul};
use kyber_rs::cipher::{Stream, StreamError};
use kyber_rs::encoding::{BinaryMarshaler, BinaryUnmarshaler, Marshaling, MarshallingError};
use kyber_rs::group::edwards25519::SuiteEd25519;
use kyber_rs::group::{
    HashFactory, PointCanCheckCanonicalAndSmallOrder, PointError, ScalarCanCheckCanonical,
};
use kyber_rs::share::vss::suite::Suite;
use kyber_rs::util::key::{Generator, KeyError};
use kyber_rs::{Group, Point, Random, Scalar, XOFFactory, XOF};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{Read, Write};

pub const M61: u64 = (1 << 61) - 1;
/// poison value of a never-initialised point
pub const POISON: u64 = u64::MAX;

thread_local! {
    static RNG: RefCell<Rng> = RefCell::new(Rng::Counter(0, 0));
}
#[derive(Clone)]
enum Rng {
    Counter(u64, u64),
    /// explicit script: each 8-byte draw returns the next scripted value; number of draws is counted
    Script(Vec<u64>, usize),
}

/// Makes every random_stream() of toy suites on this thread a deterministic function of `label`.
pub fn seed_rng(label: &str) {
    RNG.with(|r| *r.borrow_mut() = Rng::Counter(crate::engine::fnv(label.as_bytes()), 0));
}
/// Every 8 byte draw from toy random streams comes from `vals` (environment answers chosen by the explorer).
pub fn script_rng(vals: Vec<u64>) {
    RNG.with(|r| *r.borrow_mut() = Rng::Script(vals, 0));
}
pub fn script_draws() -> usize {
    RNG.with(|r| match &*r.borrow() {
        Rng::Script(_, n) => *n,
        Rng::Counter(_, n) => *n as usize,
    })
}

pub struct ToyStream;
impl Stream for ToyStream {
    fn xor_key_stream(&mut self, dst: &mut [u8], src: &[u8]) -> Result<(), StreamError> {
        RNG.with(|r| {
            let mut r = r.borrow_mut();
            match &mut *r {
                Rng::Counter(s, n) => {
                    let mut h = blake3::Hasher::new();
                    h.update(&s.to_le_bytes());
                    h.update(&n.to_le_bytes());
                    *n += 1;
                    let mut out = vec![0u8; src.len()];
                    h.finalize_xof().fill(&mut out);
                    for i in 0..src.len() {
                        dst[i] = src[i] ^ out[i];
                    }
                }
                Rng::Script(v, n) => {
                    for (ci, ch) in src.chunks(8).enumerate() {
                        let val = v.get(*n).copied().unwrap_or(0);
                        *n += 1;
                        let b = val.to_le_bytes();
                        for (i, s) in ch.iter().enumerate() {
                            dst[ci * 8 + i] = s ^ b[i];
                        }
                    }
                }
            }
        });
        Ok(())
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Serialize, Deserialize, Hash)]
pub struct TS<const Q: u64>(pub u64);

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Serialize, Deserialize, Hash)]
pub struct TP<const Q: u64>(pub u64);

impl<const Q: u64> Default for TP<Q> {
    fn default() -> Self {
        TP(POISON)
    }
}

pub fn mulq(a: u64, b: u64, q: u64) -> u64 {
    ((a as u128 * b as u128) % q as u128) as u64
}
pub fn addq(a: u64, b: u64, q: u64) -> u64 {
    ((a as u128 + b as u128) % q as u128) as u64
}
pub fn subq(a: u64, b: u64, q: u64) -> u64 {
    ((a as u128 + q as u128 - (b % q) as u128) % q as u128) as u64
}
pub fn powq(mut a: u64, mut e: u64, q: u64) -> u64 {
    let mut r = 1 % q;
    while e > 0 {
        if e & 1 == 1 {
            r = mulq(r, a, q);
        }
        a = mulq(a, a, q);
        e >>= 1;
    }
    r
}
pub fn invq(a: u64, q: u64) -> u64 {
    powq(a, q - 2, q)
}

impl<const Q: u64> Add for TS<Q> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        TS(addq(self.0, o.0, Q))
    }
}
impl<const Q: u64> Mul for TS<Q> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        TS(mulq(self.0, o.0, Q))
    }
}
impl<const Q: u64> Display for TS<Q> {
    fn fmt(&self, f: &mut Formatter<'_>) -> core::fmt::Result {
        write!(f, "s{}", self.0)
    }
}
impl<const Q: u64> Display for TP<Q> {
    fn fmt(&self, f: &mut Formatter<'_>) -> core::fmt::Result {
        write!(f, "p{}", self.0)
    }
}
macro_rules! marsh {
    ($t:ident, $id:expr) => {
        impl<const Q: u64> BinaryMarshaler for $t<Q> {
            fn marshal_binary(&self) -> Result<Vec<u8>, MarshallingError> {
                Ok(self.0.to_le_bytes().to_vec())
            }
        }
        impl<const Q: u64> BinaryUnmarshaler for $t<Q> {
            fn unmarshal_binary(&mut self, d: &[u8]) -> Result<(), MarshallingError> {
                if d.len() != 8 {
                    return Err(MarshallingError::InvalidInput("toy len".into()));
                }
                let v = u64::from_le_bytes(d.try_into().unwrap());
                if v >= Q {
                    return Err(MarshallingError::InvalidInput("toy range".into()));
                }
                self.0 = v;
                Ok(())
            }
        }
        impl<const Q: u64> Marshaling for $t<Q> {
            fn marshal_size(&self) -> usize {
                8
            }
            fn marshal_to(&self, w: &mut impl Write) -> Result<(), MarshallingError> {
                w.write_all(&self.0.to_le_bytes())?;
                Ok(())
            }
            fn unmarshal_from(&mut self, r: &mut impl Read) -> Result<(), MarshallingError> {
                let mut b = [0u8; 8];
                r.read_exact(&mut b)?;
                self.unmarshal_binary(&b)
            }
            fn unmarshal_from_random(&mut self, r: &mut (impl Read + Stream)) {
                *self = self.clone().pick(r);
            }
            fn marshal_id(&self) -> [u8; 8] {
                $id
            }
        }
    };
}
marsh!(TS, *b"toy.scal");
marsh!(TP, *b"toy.poin");

fn draw(rand: &mut impl Stream, q: u64) -> u64 {
    let mut b = [0u8; 8];
    rand.xor_key_stream(&mut b, &[0u8; 8]).expect("toy stream");
    u64::from_le_bytes(b) % q
}

impl<const Q: u64> Scalar for TS<Q> {
    fn set(self, a: &Self) -> Self {
        *a
    }
    fn set_int64(self, v: i64) -> Self {
        TS((v as i128).rem_euclid(Q as i128) as u64)
    }
    fn zero(self) -> Self {
        TS(0)
    }
    fn sub(self, a: &Self, b: &Self) -> Self {
        TS(subq(a.0, b.0, Q))
    }
    fn neg(self, a: &Self) -> Self {
        TS(subq(0, a.0, Q))
    }
    fn one(self) -> Self {
        TS(1 % Q)
    }
    fn div(self, a: &Self, b: &Self) -> Self {
        TS(mulq(a.0, invq(b.0, Q), Q))
    }
    fn inv(self, a: &Self) -> Self {
        TS(invq(a.0, Q))
    }
    fn pick(self, rand: &mut impl Stream) -> Self {
        TS(draw(rand, Q))
    }
    fn set_bytes(self, bytes: &[u8]) -> Self {
        let mut r: u64 = 0;
        for b in bytes.iter().rev() {
            r = addq(mulq(r, 256 % Q, Q), (*b as u64) % Q, Q);
        }
        TS(r)
    }
}

fn pz<const Q: u64>(v: &[TP<Q>]) -> bool {
    v.iter().any(|p| p.0 == POISON)
}
impl<const Q: u64> Point for TP<Q> {
    type SCALAR = TS<Q>;
    fn null(self) -> Self {
        TP(0)
    }
    fn base(self) -> Self {
        TP(1 % Q)
    }
    fn pick<S: Stream>(self, rand: &mut S) -> Self {
        TP(draw(rand, Q))
    }
    fn set(&mut self, p: &Self) -> Self {
        *self = *p;
        *self
    }
    fn embed_len(&self) -> usize {
        1
    }
    fn embed<S: Stream>(self, _data: Option<&[u8]>, rand: &mut S) -> Self {
        self.pick(rand)
    }
    fn data(&self) -> Result<Vec<u8>, PointError> {
        Ok(vec![])
    }
    fn add(self, a: &Self, b: &Self) -> Self {
        if pz(&[*a, *b]) {
            return TP(POISON);
        }
        TP(addq(a.0, b.0, Q))
    }
    fn sub(self, a: &Self, b: &Self) -> Self {
        if pz(&[*a, *b]) {
            return TP(POISON);
        }
        TP(subq(a.0, b.0, Q))
    }
    fn neg(&mut self, a: &Self) -> Self {
        *self = if pz(&[*a]) { TP(POISON) } else { TP(subq(0, a.0, Q)) };
        *self
    }
    fn mul(self, s: &TS<Q>, p: Option<&Self>) -> Self {
        match p {
            None => TP(s.0 % Q),
            Some(p) if p.0 == POISON => TP(POISON),
            Some(p) => TP(mulq(s.0, p.0, Q)),
        }
    }
}
impl<const Q: u64> ScalarCanCheckCanonical for TS<Q> {
    fn is_canonical(&self, b: &[u8]) -> bool {
        b.len() == 8 && u64::from_le_bytes(b.try_into().unwrap()) < Q
    }
}
impl<const Q: u64> PointCanCheckCanonicalAndSmallOrder for TP<Q> {
    fn has_small_order(&self) -> bool {
        self.0 == 0
    }
    fn is_canonical(&self, b: &[u8]) -> bool {
        b.len() == 8 && u64::from_le_bytes(b.try_into().unwrap()) < Q
    }
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Toy<const Q: u64>;

impl<const Q: u64> Display for Toy<Q> {
    fn fmt(&self, f: &mut Formatter<'_>) -> core::fmt::Result {
        write!(f, "Toy{Q}")
    }
}
impl<const Q: u64> HashFactory for Toy<Q> {
    type T = sha2::Sha256;
}
impl<const Q: u64> Group for Toy<Q> {
    type POINT = TP<Q>;
    fn scalar_len(&self) -> usize {
        8
    }
    fn scalar(&self) -> TS<Q> {
        TS(0)
    }
    fn point_len(&self) -> usize {
        8
    }
    fn point(&self) -> TP<Q> {
        TP::default()
    }
    fn is_prime_order(&self) -> Option<bool> {
        Some(true)
    }
}
impl<const Q: u64> XOFFactory for Toy<Q> {
    fn xof(&self, seed: Option<&[u8]>) -> Box<dyn XOF> {
        SuiteEd25519::new_blake3_sha256_ed25519().xof(seed)
    }
}
impl<const Q: u64> Random for Toy<Q> {
    fn random_stream(&self) -> Box<dyn Stream> {
        Box::new(ToyStream)
    }
}
impl<const Q: u64> Suite for Toy<Q> {}
impl<const Q: u64> kyber_rs::sign::dss::Suite for Toy<Q> {}
impl<const Q: u64> kyber_rs::util::key::Suite for Toy<Q> {}
impl<const Q: u64> Generator<TS<Q>> for Toy<Q> {
    fn new_key<S: Stream>(&self, _stream: &mut S) -> Result<Option<TS<Q>>, KeyError> {
        Ok(None)
    }
}
