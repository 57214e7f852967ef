//! Grinding, option constructors, and other functions of their inputs alone.
use crate::adv::{grind_bits, Node};
use crate::common::*;
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField;
use lambdaworks_math::field::fields::toy::*;
use lambdaworks_stark::starks::grinding::{
    generate_nonce_with_grinding, hash_transcript_with_int_and_get_leading_zeros,
};
use lambdaworks_stark::starks::proof::errors::InsecureOptionError;
use lambdaworks_stark::starks::proof::options::{ProofOptions, SecurityLevel};
use serde_json::{json, Value};

fn h64(v: &Value) -> u64 {
    u64::from_str_radix(v.as_str().expect("hex"), 16).expect("u64 hex")
}

pub fn grind(sc: &Value) -> Value {
    let ch: Node = unhex(s(sc, "ch")).try_into().unwrap();
    let works: Vec<Value> = arr(sc, "nonces")
        .iter()
        .map(|n| match guard(|| hash_transcript_with_int_and_get_leading_zeros(&ch, h64(n))) {
            Ok(w) => json!(w),
            Err(_) => json!(-1),
        })
        .collect();
    let found: Vec<Value> = arr(sc, "factors")
        .iter()
        .map(|f| {
            let f = f.as_u64().unwrap() as u8;
            match guard(|| generate_nonce_with_grinding(&ch, f)) {
                Ok(Some(n)) => json!(format!("{:x}", n)),
                Ok(None) => json!("none"),
                Err(_) => json!("panic"),
            }
        })
        .collect();
    // the hardest nonces among the first 2^search, found by an independent computation
    let mut best = 0;
    let mut deep = vec![];
    for n in 0..(1u64 << us(sc, "search")) {
        let w = grind_bits(&ch, n);
        if w > best {
            best = w;
            let got = guard(|| hash_transcript_with_int_and_get_leading_zeros(&ch, n)).map(i64::from).unwrap_or(-1);
            deep.push(json!({"nonce": format!("{:x}", n), "work": got}));
        }
    }
    json!({"ch": sc["ch"], "nonces": sc["nonces"], "factors": sc["factors"], "works": works, "found": found, "deep": deep})
}

fn construct<F: lambdaworks_math::field::traits::IsPrimeField>(c: &Value) -> (String, bool) {
    let (b, nq, off, g, t) =
        (u(c, "blowup") as u8, h64(&c["nq"]) as usize, h64(&c["off"]), u(c, "grind") as u8, u(c, "target") as u8);
    let r = guard(|| match s(c, "fn") {
        "checked" => ProofOptions::new_with_checked_security::<F>(b, nq, off, g, t),
        _ => ProofOptions::new_with_checked_provable_security::<F>(b, nq, off, g, t),
    });
    match r {
        Ok(Ok(o)) => (
            "ok".into(),
            o.blowup_factor == b && o.fri_number_of_queries == nq && o.coset_offset == off && o.grinding_factor == g,
        ),
        Ok(Err(InsecureOptionError::FieldSize)) => ("FieldSize".into(), true),
        Ok(Err(InsecureOptionError::SecurityBits)) => ("SecurityBits".into(), true),
        Err(_) => ("panic".into(), false),
    }
}
fn construct_any(c: &Value) -> (String, bool) {
    match s(c, "fld") {
        "stark252" => construct::<Stark252PrimeField>(c),
        "t193" => construct::<Toy193>(c),
        "t257" => construct::<Toy257>(c),
        "t12289" => construct::<Toy12289>(c),
        _ => construct::<Toy40961>(c),
    }
}

pub fn options(sc: &Value) -> Value {
    let r: Vec<(String, bool)> = arr(sc, "cases").iter().map(construct_any).collect();
    json!({"cases": sc["cases"],
        "res": r.iter().map(|x| x.0.clone()).collect::<Vec<_>>(),
        "same": r.iter().map(|x| x.1).collect::<Vec<_>>()})
}

pub fn presets(sc: &Value) -> Value {
    let mut o = vec![];
    let mut own = vec![];
    for l in arr(sc, "levels") {
        let (level, f, t) = match l.as_str().unwrap() {
            "Conjecturable80Bits" => (SecurityLevel::Conjecturable80Bits, "checked", 80),
            "Conjecturable100Bits" => (SecurityLevel::Conjecturable100Bits, "checked", 100),
            "Conjecturable128Bits" => (SecurityLevel::Conjecturable128Bits, "checked", 128),
            "Provable80Bits" => (SecurityLevel::Provable80Bits, "provable", 80),
            "Provable100Bits" => (SecurityLevel::Provable100Bits, "provable", 100),
            _ => (SecurityLevel::Provable128Bits, "provable", 128),
        };
        let p = ProofOptions::new_secure(level, h64(&sc["off"]));
        let v = json!({"blowup": p.blowup_factor, "nq": format!("{:x}", p.fri_number_of_queries),
            "off": format!("{:x}", p.coset_offset), "grind": p.grinding_factor, "target": t, "fn": f, "fld": "stark252"});
        own.push(construct_any(&v).0);
        o.push(v);
    }
    json!({"opts": o, "self": own})
}

pub fn run(sc: &Value) -> Value {
    let mut out = match s(sc, "k") {
        "grind" => grind(sc),
        "options" => options(sc),
        "presets" => presets(sc),
        "tables" | "bounds" | "exempt" => crate::blocks::run(sc),
        k => panic!("job {}", k),
    };
    out["id"] = sc["id"].clone();
    out["k"] = sc["k"].clone();
    out
}
