//! Fields, JSON helpers, pseudo-random inputs.
use ff::{Field, PrimeField, PrimeFieldRepr};
use serde_json::{json, Value};

macro_rules! mkfield {
    ($m:ident, $modulus:tt, $gen:tt) => {
        pub mod $m {
            use ff::*;
            #[derive(PrimeField)]
            #[PrimeFieldModulus = $modulus]
            #[PrimeFieldGenerator = $gen]
            pub struct Fr(FrRepr);
        }
    };
}

mkfield!(f5, "5", "2");
mkfield!(f17, "17", "3");
mkfield!(f97, "97", "5");
mkfield!(f193, "193", "5");
mkfield!(f12289, "12289", "11");
mkfield!(f40961, "40961", "3");
mkfield!(f786433, "786433", "10");
// 64-bit (top bit set), 65 bits (CAPACITY == 64), 128/129 bits, 252, 254, 255 bits
mkfield!(gold, "18446744069414584321", "7");
mkfield!(p65, "18446744073709551629", "2");
mkfield!(p127, "170141183460469231731687303715884105727", "43");
mkfield!(p129, "340282366920938463463374607431768211507", "2");
mkfield!(stark, "3618502788666131213697322783095070105623107215331596699973092056135872020481", "3");
mkfield!(bn, "21888242871839275222246405745257275088548364400416034343698204186575808495617", "7");
mkfield!(bls, "52435875175126190479447740508185965837690552500527637822603658699938581184513", "7");

pub type F257 = hodor::Fr;
pub type F5 = f5::Fr;
pub type F17 = f17::Fr;
pub type F97 = f97::Fr;
pub type F193 = f193::Fr;
pub type F12289 = f12289::Fr;
pub type F40961 = f40961::Fr;
pub type F786433 = f786433::Fr;
pub type Gold = gold::Fr;
pub type P65 = p65::Fr;
pub type P127 = p127::Fr;
pub type P129 = p129::Fr;
pub type Stark = stark::Fr;
pub type Bn = bn::Fr;
pub type Bls = bls::Fr;

/// Dispatch over every field
#[macro_export]
macro_rules! with_field {
    ($name:expr, $F:ident, $e:expr) => {
        match $name {
            "5" => { type $F = $crate::util::F5; $e }
            "17" => { type $F = $crate::util::F17; $e }
            "97" => { type $F = $crate::util::F97; $e }
            "193" => { type $F = $crate::util::F193; $e }
            "257" => { type $F = $crate::util::F257; $e }
            "12289" => { type $F = $crate::util::F12289; $e }
            "40961" => { type $F = $crate::util::F40961; $e }
            "gold" => { type $F = $crate::util::Gold; $e }
            "p65" => { type $F = $crate::util::P65; $e }
            "p127" => { type $F = $crate::util::P127; $e }
            "p129" => { type $F = $crate::util::P129; $e }
            "stark" => { type $F = $crate::util::Stark; $e }
            "bn" => { type $F = $crate::util::Bn; $e }
            "bls" => { type $F = $crate::util::Bls; $e }
            other => panic!("harness: unknown field {}", other),
        }
    };
}

/// Dispatch over the fields used for whole-protocol runs
#[macro_export]
macro_rules! with_stark_field {
    ($name:expr, $F:ident, $e:expr) => {
        match $name {
            "257" => { type $F = $crate::util::F257; $e }
            "12289" => { type $F = $crate::util::F12289; $e }
            "40961" => { type $F = $crate::util::F40961; $e }
            "stark" => { type $F = $crate::util::Stark; $e }
            other => panic!("harness: unknown field {}", other),
        }
    };
}

/// Dispatch over the fields used for instances
#[macro_export]
macro_rules! with_inst_field {
    ($name:expr, $F:ident, $e:expr) => {
        match $name {
            "97" => { type $F = $crate::util::F97; $e }
            "257" => { type $F = $crate::util::F257; $e }
            "12289" => { type $F = $crate::util::F12289; $e }
            "40961" => { type $F = $crate::util::F40961; $e }
            "stark" => { type $F = $crate::util::Stark; $e }
            other => panic!("harness: unknown field {}", other),
        }
    };
}

/// Dispatch over the fields used for arithmetic
#[macro_export]
macro_rules! with_num_field {
    ($name:expr, $F:ident, $e:expr) => {
        match $name {
            "5" => { type $F = $crate::util::F5; $e }
            "17" => { type $F = $crate::util::F17; $e }
            "257" => { type $F = $crate::util::F257; $e }
            "786433" => { type $F = $crate::util::F786433; $e }
            "40961" => { type $F = $crate::util::F40961; $e }
            "gold" => { type $F = $crate::util::Gold; $e }
            other => panic!("harness: unknown field {}", other),
        }
    };
}

pub fn is_small<F: PrimeField>() -> bool { F::NUM_BITS <= 24 }

pub fn modulus_small<F: PrimeField>() -> u64 {
    if is_small::<F>() { F::char().as_ref()[0] } else { 0 }
}

pub fn fj<F: PrimeField>(x: &F) -> Value {
    let r = x.into_repr();
    if is_small::<F>() {
        json!(r.as_ref()[0])
    } else {
        let mut b = vec![];
        r.write_be(&mut b).expect("write");
        json!(hex::encode(b))
    }
}

pub fn vj<F: PrimeField>(v: &[F]) -> Value { Value::Array(v.iter().map(fj).collect()) }

pub fn fu<F: PrimeField>(x: u64) -> F {
    let mut r = F::Repr::default();
    r.as_mut()[0] = x;
    match F::from_repr(r) {
        Ok(v) => v,
        Err(_) => F::from_str(&(x % F::char().as_ref()[0]).to_string()).expect("reduced"),
    }
}

/// signed small integer into the field
pub fn fi<F: PrimeField>(x: i64) -> F {
    if x >= 0 { fu::<F>(x as u64) } else { let mut v = fu::<F>((-x) as u64); v.negate(); v }
}

/// number or hex
pub fn fparse<F: PrimeField>(v: &Value) -> F {
    if let Some(i) = v.as_i64() { return fi::<F>(i); }
    let s = v.as_str().expect("field value");
    let b = hex::decode(s).expect("hex");
    let mut r = F::Repr::default();
    r.read_be(&b[..]).expect("read");
    F::from_repr(r).expect("in field")
}

pub fn fvec<F: PrimeField>(v: &Value) -> Vec<F> {
    v.as_array().map(|a| a.iter().map(fparse::<F>).collect()).unwrap_or_default()
}

pub fn gi(v: &Value, k: &str) -> i64 { v[k].as_i64().unwrap_or_else(|| panic!("harness: missing int {} in {}", k, v)) }
pub fn gu(v: &Value, k: &str) -> usize { gi(v, k) as usize }
pub fn gud(v: &Value, k: &str, d: usize) -> usize { v[k].as_i64().map(|x| x as usize).unwrap_or(d) }
pub fn gs<'a>(v: &'a Value, k: &str) -> &'a str { v[k].as_str().unwrap_or("") }
pub fn gb(v: &Value, k: &str) -> bool { v[k].as_bool().unwrap_or(false) }

/// xorshift64*
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        // splitmix scrambling, so that close seeds give unrelated streams
        let mut z = seed.wrapping_add(0x9E3779B97F4A7C15);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^= z >> 31;
        Rng(if z == 0 { 1 } else { z })
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 >> 12;
        self.0 ^= self.0 << 25;
        self.0 ^= self.0 >> 27;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { ((self.next() >> 11) as usize) % n } }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn field<F: PrimeField>(&mut self) -> F {
        loop {
            let mut r = F::Repr::default();
            let bits = F::NUM_BITS;
            for (i, l) in r.as_mut().iter_mut().enumerate() {
                let used = 64 * (i as u32);
                let v = (self.next() >> 32) ^ (self.next() << 17);
                *l = if bits <= used { 0 } else if bits - used >= 64 { v } else { v & ((1u64 << (bits - used)) - 1) };
            }
            if let Ok(v) = F::from_repr(r) { return v; }
        }
    }
    pub fn nonzero<F: PrimeField>(&mut self) -> F {
        loop { let v = self.field::<F>(); if !v.is_zero() { return v; } }
    }
    pub fn vec<F: PrimeField>(&mut self, n: usize) -> Vec<F> { (0..n).map(|_| self.field()).collect() }
}

/// input vectors named by the scenario
pub fn input<F: PrimeField>(s: &Value, key: &str, n: usize, salt: u64) -> Vec<F> {
    if s[key].is_array() { return fvec::<F>(&s[key]); }
    let mut rng = Rng::new(gud(s, "seed", 1) as u64 ^ (salt << 32));
    let kind = gs(s, "in");
    let mut v: Vec<F> = match kind {
        "zero" => vec![F::zero(); n],
        "one" => vec![F::one(); n],
        "max" => { let mut m = F::one(); m.negate(); vec![m; n] }
        "nz" => (0..n).map(|_| rng.nonzero()).collect(),
        k if k.starts_with("b") && k.len() > 1 && k[1..].parse::<usize>().is_ok() => {
            let j: usize = k[1..].parse().unwrap();
            let mut v = vec![F::zero(); n];
            if n > 0 { v[j % n] = F::one(); }
            v
        }
        "sparse" => { let mut v = vec![F::zero(); n]; for _ in 0..2 { if n > 0 { let i = rng.below(n); v[i] = rng.nonzero(); } } v }
        _ => rng.vec(n),
    };
    if let Some(z) = s["zeros"].as_array() {
        for i in z { let i = i.as_u64().unwrap() as usize; if i < v.len() { v[i] = F::zero(); } }
    }
    v
}
