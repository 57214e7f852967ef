//! Shared plumbing: JSON <-> field elements, a small deterministic generator,
//! panic capture, byte/hex helpers.
use lambdaworks_math::field::element::FieldElement;
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField;
use lambdaworks_math::field::fields::toy::*;
use lambdaworks_math::field::traits::{IsFFTField, IsField};
use lambdaworks_math::traits::ByteConversion;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Fe<F> = FieldElement<F>;

/// A field the harness can exchange with the TLA+ side.
pub trait HField: IsFFTField<BaseType = <Self as HField>::B> + Send + Sync + 'static {
    type B: Clone + std::fmt::Debug + std::hash::Hash + Send + Sync;
    const TOY: bool;
    fn enc(x: &Fe<Self>) -> Value;
    fn dec(v: &Value) -> Fe<Self>;
    fn bytes(x: &Fe<Self>) -> Vec<u8>;
    fn params() -> Value;
}

macro_rules! toy {
    ($t:ty, $p:expr, $a:expr, $w:expr) => {
        impl HField for $t {
            type B = u64;
            const TOY: bool = true;
            fn enc(x: &Fe<Self>) -> Value {
                json!(format!("{:x}", x.value()))
            }
            fn dec(v: &Value) -> Fe<Self> {
                if let Some(h) = v.as_str() {
                    return Fe::<Self>::from(u64::from_str_radix(h, 16).expect("hex") % ($p as u64));
                }
                let n = v.as_i64().expect("int");
                Fe::<Self>::from((n.rem_euclid($p as i64)) as u64)
            }
            fn bytes(x: &Fe<Self>) -> Vec<u8> {
                x.to_bytes_be()
            }
            fn params() -> Value {
                json!({"p": format!("{:x}", $p as u64), "ad": $a, "w": format!("{:x}", $w as u64), "nb": 8})
            }
        }
    };
}
toy!(Toy193, 193, 6, 125);
toy!(Toy257, 257, 8, 3);
toy!(Toy12289, 12289, 12, 1331);
toy!(Toy40961, 40961, 13, 243);

impl HField for Stark252PrimeField {
    type B = <Stark252PrimeField as IsField>::BaseType;
    const TOY: bool = false;
    fn enc(x: &Fe<Self>) -> Value {
        json!(trim(&hex(&x.to_bytes_be())))
    }
    fn dec(v: &Value) -> Fe<Self> {
        match v {
            Value::String(s) => Fe::<Self>::from_hex(s).expect("hex"), // reduced mod p
            _ => {
                let n = v.as_i64().expect("int");
                felt(n)
            }
        }
    }
    fn bytes(x: &Fe<Self>) -> Vec<u8> {
        x.to_bytes_be().to_vec()
    }
    fn params() -> Value {
        let w = Stark252PrimeField::get_primitive_root_of_unity(Stark252PrimeField::TWO_ADICITY).unwrap();
        json!({"p": "800000000000011000000000000000000000000000000000000000000000001",
               "ad": <Stark252PrimeField as IsFFTField>::TWO_ADICITY,
               "w": Self::enc(&w), "nb": 32})
    }
}

/// Minimal lower-case hex without prefix: how the specifications write numbers.
pub fn trim(h: &str) -> String {
    let t = h.trim_start_matches("0x").trim_start_matches('0');
    if t.is_empty() { "0".into() } else { t.into() }
}

pub fn felt(n: i64) -> Fe<Stark252PrimeField> {
    if n >= 0 {
        Fe::<Stark252PrimeField>::from(n as u64)
    } else {
        -Fe::<Stark252PrimeField>::from(n.unsigned_abs())
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(2 * b.len());
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x5851F42D4C957F2D)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn fe<F: HField>(&mut self) -> Fe<F> {
        let a = Fe::<F>::from(self.next() >> 1);
        let b = Fe::<F>::from(self.next() >> 1);
        let c = Fe::<F>::from(1u64 << 40);
        &a * &c * &c * &c + b
    }
    pub fn nz<F: HField>(&mut self) -> Fe<F> {
        loop {
            let x = self.fe::<F>();
            if x != Fe::<F>::zero() {
                return x;
            }
        }
    }
}

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
    static GUARDED: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if !GUARDED.with(|g| g.get()) {
            eprintln!("harness panic: {} @ {}", msg, loc);
        }
        PANIC.with(|p| *p.borrow_mut() = format!("{} @ {}", msg, loc));
    }));
}

/// Runs code under test; a panic is an outcome, not an error of the harness.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = GUARDED.with(|g| g.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()));
    GUARDED.with(|g| g.set(was));
    r
}

pub fn u(v: &Value, k: &str) -> u64 {
    v[k].as_u64()
        .unwrap_or_else(|| panic!("missing int {} in {}", k, v))
}
pub fn us(v: &Value, k: &str) -> usize {
    u(v, k) as usize
}
pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str()
        .unwrap_or_else(|| panic!("missing string {} in {}", k, v))
}
pub fn arr<'a>(v: &'a Value, k: &str) -> &'a Vec<Value> {
    v[k].as_array()
        .unwrap_or_else(|| panic!("missing array {} in {}", k, v))
}
pub fn opt_u(v: &Value, k: &str, d: u64) -> u64 {
    v[k].as_u64().unwrap_or(d)
}
