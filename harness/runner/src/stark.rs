//! Scenario replay for the generic prover and verifier.
use crate::adv::*;
use crate::common::*;
use crate::dair::*;
use lambdaworks_crypto::probe;
use lambdaworks_math::traits::{ByteConversion, Serializable};
use lambdaworks_crypto::fiat_shamir::{default_transcript::DefaultTranscript, transcript::Transcript};
use crate::validate_trace;
use lambdaworks_stark::starks::domain::Domain;
use lambdaworks_stark::starks::example::{
    dummy_air::{dummy_trace, DummyAIR},
    fibonacci_2_columns::{fibonacci_trace_2_columns, Fibonacci2ColsAIR},
    fibonacci_rap::{fibonacci_rap_trace, FibonacciRAP, FibonacciRAPPublicInputs},
    quadratic_air::{quadratic_trace, QuadraticAIR, QuadraticPublicInputs},
    simple_fibonacci::{fibonacci_trace, FibonacciAIR, FibonacciPublicInputs},
};
use lambdaworks_stark::starks::frame::Frame;
use lambdaworks_stark::starks::proof::{options::ProofOptions, stark::StarkProof};
use lambdaworks_stark::starks::prover::prove;
use lambdaworks_stark::starks::trace::TraceTable;
use lambdaworks_stark::starks::traits::AIR;
use lambdaworks_stark::starks::verifier::verify;
use serde_json::{json, Value};
use std::sync::Arc;

/// Transcript events as [kind, hex] pairs: "n" new, "a" absorb, "c" challenge.
pub fn events(ev: Vec<probe::Event>) -> Value {
    let mut out: Vec<(char, String)> = vec![];
    for e in ev {
        match e {
            // the transcript starts here; a second start would be a second transcript
            probe::Event::New if out.is_empty() => {}
            probe::Event::New => out.push(('n', String::new())),
            // consecutive absorbs are one absorb of the concatenation
            probe::Event::Append(b) => match out.last_mut() {
                Some(l) if l.0 == 'a' => l.1.push_str(&hex(&b)),
                _ => out.push(('a', hex(&b))),
            },
            probe::Event::Challenge(c) => out.push(('c', hex(&c))),
        }
    }
    Value::Array(out.into_iter().map(|(k, h)| json!([k, h])).collect())
}

pub fn proof_json<F: HField>(p: &StarkProof<F>) -> Value {
    let f = &p.trace_ood_frame_evaluations;
    let w = f.num_columns();
    let rows: Vec<Vec<Value>> = if w == 0 {
        vec![]
    } else {
        (0..f.num_rows())
            .map(|r| f.get_row(r).iter().map(F::enc).collect())
            .collect()
    };
    let path = |x: &lambdaworks_crypto::merkle_tree::proof::Proof<Node>| -> Vec<String> {
        x.merkle_path.iter().map(|n| hex(n)).collect()
    };
    json!({
        // -1: longer than any path a scenario can hold could open
        "T": if p.trace_length <= 1 << 20 { p.trace_length as i64 } else { -1 },
        "roots": p.lde_trace_merkle_roots.iter().map(|r| hex(r)).collect::<Vec<_>>(),
        "oodw": w,
        "ood": rows,
        "croot": hex(&p.composition_poly_root),
        "h1": F::enc(&p.composition_poly_even_ood_evaluation),
        "h2": F::enc(&p.composition_poly_odd_ood_evaluation),
        "froots": p.fri_layers_merkle_roots.iter().map(|r| hex(r)).collect::<Vec<_>>(),
        "last": F::enc(&p.fri_last_value),
        "q": p.query_list.iter().map(|q| json!({
            "ps": q.layers_auth_paths_sym.iter().map(path).collect::<Vec<_>>(),
            "es": q.layers_evaluations_sym.iter().map(F::enc).collect::<Vec<_>>(),
            "p": q.layers_auth_paths.iter().map(path).collect::<Vec<_>>(),
            "e": q.layers_evaluations.iter().map(F::enc).collect::<Vec<_>>(),
        })).collect::<Vec<_>>(),
        "o": p.deep_poly_openings.iter().map(|o| json!({
            "cp": path(&o.lde_composition_poly_proof),
            "ce": F::enc(&o.lde_composition_poly_even_evaluation),
            "co": F::enc(&o.lde_composition_poly_odd_evaluation),
            "tp": o.lde_trace_merkle_proofs.iter().map(path).collect::<Vec<_>>(),
            "te": o.lde_trace_evaluations.iter().map(F::enc).collect::<Vec<_>>(),
        })).collect::<Vec<_>>(),
        "nonce": hex(&p.nonce.to_be_bytes()),
    })
}

pub fn dup<F: HField>(p: &StarkProof<F>) -> StarkProof<F> {
    StarkProof {
        trace_length: p.trace_length,
        lde_trace_merkle_roots: p.lde_trace_merkle_roots.clone(),
        trace_ood_frame_evaluations: p.trace_ood_frame_evaluations.clone(),
        composition_poly_root: p.composition_poly_root,
        composition_poly_even_ood_evaluation: p.composition_poly_even_ood_evaluation.clone(),
        composition_poly_odd_ood_evaluation: p.composition_poly_odd_ood_evaluation.clone(),
        fri_layers_merkle_roots: p.fri_layers_merkle_roots.clone(),
        fri_last_value: p.fri_last_value.clone(),
        query_list: p.query_list.clone(),
        deep_poly_openings: p.deep_poly_openings.clone(),
        nonce: p.nonce,
    }
}

fn bump<F: HField>(x: &mut Fe<F>, e: &Value) {
    let d = e["d"].as_i64().unwrap_or(1);
    *x = &*x + F::dec(&json!(d));
}

/// Applies one edit to a proof. Returns false when there is nothing to edit there.
pub fn edit<F: HField>(p: &mut StarkProof<F>, e: &Value) -> bool {
    let q = opt_u(e, "q", 0) as usize;
    let lay = opt_u(e, "lay", 0) as usize;
    let i = opt_u(e, "i", 0) as usize;
    let w = e["w"].as_str().unwrap_or("");
    fn flip(n: &mut Node, i: usize) {
        n[i % 32] ^= 1 << (i % 8);
    }
    fn vecop<T: Clone>(v: &mut Vec<T>, op: &str) -> bool {
        match op {
            "pop" => v.pop().is_some(),
            "clear" => {
                let r = !v.is_empty();
                v.clear();
                r
            }
            "dup" => match v.last().cloned() {
                Some(x) => {
                    v.push(x);
                    true
                }
                None => false,
            },
            "swap" => {
                if v.len() > 1 {
                    let n = v.len();
                    v.swap(0, n - 1);
                    true
                } else {
                    false
                }
            }
            o => panic!("op {}", o),
        }
    }
    let ty = s(e, "e");
    macro_rules! go {
        ($x:expr) => {
            match $x {
                Some(v) => v,
                None => return false,
            }
        };
    }
    match ty {
        "val" => match w {
            "h1" => bump::<F>(&mut p.composition_poly_even_ood_evaluation, e),
            "h2" => bump::<F>(&mut p.composition_poly_odd_ood_evaluation, e),
            "last" => bump::<F>(&mut p.fri_last_value, e),
            "ood" => {
                let f = &mut p.trace_ood_frame_evaluations;
                if f.num_columns() == 0 || lay >= f.num_rows() || i >= f.num_columns() {
                    return false;
                }
                bump::<F>(&mut f.get_row_mut(lay)[i], e)
            }
            "fe" => bump::<F>(go!(go!(p.query_list.get_mut(q)).layers_evaluations.get_mut(lay)), e),
            "fes" => bump::<F>(
                go!(go!(p.query_list.get_mut(q)).layers_evaluations_sym.get_mut(lay)),
                e,
            ),
            "ce" => bump::<F>(
                &mut go!(p.deep_poly_openings.get_mut(q)).lde_composition_poly_even_evaluation,
                e,
            ),
            "co" => bump::<F>(
                &mut go!(p.deep_poly_openings.get_mut(q)).lde_composition_poly_odd_evaluation,
                e,
            ),
            "te" => bump::<F>(
                go!(go!(p.deep_poly_openings.get_mut(q)).lde_trace_evaluations.get_mut(i)),
                e,
            ),
            _ => panic!("edit {}", e),
        },
        "root" => match w {
            "trace" => flip(go!(p.lde_trace_merkle_roots.get_mut(lay)), i),
            "comp" => flip(&mut p.composition_poly_root, i),
            "fri" => flip(go!(p.fri_layers_merkle_roots.get_mut(lay)), i),
            _ => panic!("edit {}", e),
        },
        "path" | "pathlen" => {
            let path = match w {
                "comp" => &mut go!(p.deep_poly_openings.get_mut(q)).lde_composition_poly_proof,
                "trace" => go!(go!(p.deep_poly_openings.get_mut(q)).lde_trace_merkle_proofs.get_mut(lay)),
                "fri" => go!(go!(p.query_list.get_mut(q)).layers_auth_paths.get_mut(lay)),
                "frisym" => go!(go!(p.query_list.get_mut(q)).layers_auth_paths_sym.get_mut(lay)),
                _ => panic!("edit {}", e),
            };
            if ty == "path" {
                flip(go!(path.merkle_path.get_mut(i)), i)
            } else {
                return vecop(&mut path.merkle_path, s(e, "op"));
            }
        }
        "nonce" => p.nonce = p.nonce.wrapping_add(opt_u(e, "d", 1)),
        "T" => p.trace_length = usize::from_str_radix(s(e, "d"), 16).unwrap(),
        // another trace length, with everything resized to what it calls for
        "scale" => {
            let (old, new) = (p.trace_length.trailing_zeros() as usize, us(e, "d"));
            p.trace_length = 1 << new;
            let up = |n: usize| n + new - old;
            let fill = |v: &mut Vec<Node>, n: usize| v.resize(n, [7; 32]);
            let nl = up(p.fri_layers_merkle_roots.len());
            fill(&mut p.fri_layers_merkle_roots, nl);
            for o in &mut p.deep_poly_openings {
                let n = up(o.lde_composition_poly_proof.merkle_path.len());
                fill(&mut o.lde_composition_poly_proof.merkle_path, n);
                o.lde_trace_merkle_proofs.iter_mut().for_each(|x| fill(&mut x.merkle_path, n));
            }
            for q in &mut p.query_list {
                let n = up(q.layers_auth_paths[0].merkle_path.len());
                q.layers_evaluations.resize(nl, Fe::<F>::one());
                q.layers_evaluations_sym.resize(nl, Fe::<F>::one());
                for v in [&mut q.layers_auth_paths, &mut q.layers_auth_paths_sym] {
                    v.resize(nl, v[0].clone());
                    for (k, x) in v.iter_mut().enumerate() {
                        fill(&mut x.merkle_path, n - k);
                    }
                }
            }
        }
        "oodshape" => {
            let f = &p.trace_ood_frame_evaluations;
            let mut data = vec![];
            if f.num_columns() > 0 {
                for r in 0..f.num_rows() {
                    data.extend(f.get_row(r).to_vec());
                }
            }
            let mut width = f.num_columns();
            match w {
                "droprow" => {
                    let k = data.len().saturating_sub(width);
                    data.truncate(k)
                }
                "addrow" => {
                    let r = data[..width].to_vec();
                    data.extend(r)
                }
                "width0" => width = 0,
                "width1" => width = 1,
                "widthbig" => width = data.len() + 1,
                "widthplus" => {
                    let rows: Vec<Vec<Fe<F>>> = data.chunks(width).map(|c| c.to_vec()).collect();
                    data = rows
                        .into_iter()
                        .flat_map(|mut r| {
                            r.push(Fe::<F>::one());
                            r
                        })
                        .collect();
                    width += 1;
                }
                "empty" => data.clear(),
                _ => panic!("edit {}", e),
            }
            p.trace_ood_frame_evaluations = Frame::new(data, width);
        }
        "vec" => {
            let op = s(e, "op");
            return match w {
                "roots" => vecop(&mut p.lde_trace_merkle_roots, op),
                "froots" => vecop(&mut p.fri_layers_merkle_roots, op),
                "queries" => vecop(&mut p.query_list, op),
                "openings" => vecop(&mut p.deep_poly_openings, op),
                "tp" => vecop(&mut go!(p.deep_poly_openings.get_mut(q)).lde_trace_merkle_proofs, op),
                "te" => vecop(&mut go!(p.deep_poly_openings.get_mut(q)).lde_trace_evaluations, op),
                "fp" => vecop(&mut go!(p.query_list.get_mut(q)).layers_auth_paths, op),
                "fps" => vecop(&mut go!(p.query_list.get_mut(q)).layers_auth_paths_sym, op),
                "fe" => vecop(&mut go!(p.query_list.get_mut(q)).layers_evaluations, op),
                "fes" => vecop(&mut go!(p.query_list.get_mut(q)).layers_evaluations_sym, op),
                _ => panic!("edit {}", e),
            };
        }
        _ => panic!("edit {}", e),
    }
    true
}

pub fn gen_trace<F: HField>(v: &Value) -> Vec<Vec<Fe<F>>> {
    let kind = s(v, "kind");
    let d = |x: &Value| F::dec(x);
    let mut cols: Vec<Vec<Fe<F>>> = match kind {
        "cols" => arr(v, "cols")
            .iter()
            .map(|c| c.as_array().unwrap().iter().map(d).collect())
            .collect(),
        k => panic!("trace kind {}", k),
    };
    if let Some(cs) = v["corrupt"].as_array() {
        for c in cs {
            let (col, row) = (us(c, "col"), us(c, "row"));
            let x = &cols[col][row] + F::dec(&c["d"]);
            cols[col][row] = x;
        }
    }
    cols
}

pub struct Run<'a, F: HField> {
    pub sc: &'a Value,
    pub cols: Vec<Vec<Fe<F>>>,
    pub desc: Arc<Desc>,
}

/// What trace validation says of the full trace, with some cells changed, case by case.
fn validations<F: HField, A>(sc: &Value, pi: &A::PublicInputs, o: &ProofOptions, cols: &[Vec<Fe<F>>]) -> Value
where
    A: AIR<Field = F> + Send + Sync,
    A::RAPChallenges: Send + Sync,
    Fe<F>: ByteConversion,
{
    let air = A::new(cols[0].len(), pi, o);
    let domain = Domain::new(&air);
    let mut tr = DefaultTranscript::new();
    tr.append(&unhex(s(sc, "word")));
    let ch = air.build_rap_challenges(&mut tr);
    let main = TraceTable::new_from_cols(cols);
    let aux = air.build_auxiliary_trace(&main, &ch);
    let full = if aux.n_cols == 0 { main } else { main.concatenate(aux.table.clone(), aux.n_cols) };
    arr(sc, "cases")
        .iter()
        .map(|case| {
            let mut t = full.clone();
            for c in case.as_array().unwrap() {
                let i = us(c, "row") * t.n_cols + us(c, "col");
                t.table[i] = &t.table[i] + F::dec(&c["d"]);
            }
            match guard(|| validate_trace(&air, &t.compute_trace_polys(), &domain, &ch)) {
                Ok(b) => json!(if b { "accept" } else { "reject" }),
                Err(_) => json!("panic"),
            }
        })
        .collect()
}

fn run_air<F: HField, A>(sc: &Value, pi: &A::PublicInputs, vpi: &A::PublicInputs, desc: Arc<Desc>) -> Value
where
    A: AIR<Field = F> + Send + Sync,
    A::RAPChallenges: Send + Sync,
    Fe<F>: ByteConversion,
{
    let o = opts(&sc["opts"]);
    let vo = if sc["vopts"].is_object() { opts(&sc["vopts"]) } else { o.clone() };
    let cols = gen_trace::<F>(&sc["trace"]);
    let want = sc["record"].as_bool().unwrap_or(false);
    let mut out = json!({"id": sc["id"], "check": sc["check"].as_str().unwrap_or("none"), "meta": sc["meta"]});
    let full = out["check"] == "full";
    let mut rng = Rng::new(opt_u(sc, "seed", 1));
    if want || full {
        out["cols"] = json!(cols
            .iter()
            .map(|c| c.iter().map(F::enc).collect::<Vec<_>>())
            .collect::<Vec<_>>());
        out["fld"] = F::params();
        out["opts"] = sc["opts"].clone();
        out["desc"] = sc["desc"].clone();
    }
    if s(sc, "act") == "validate" {
        out["seed"] = sc["word"].clone();
        out["cases"] = sc["cases"].clone();
        match guard(|| validations::<F, A>(sc, pi, &o, &cols)) {
            Ok(v) => out["valid"] = v,
            Err(m) => out["panic"] = json!(m),
        }
        return out;
    }
    let mut proof = match s(sc, "act") {
        "honest" => {
            match guard(|| shipped::<F>(sc)) {
                Ok(None) => {}
                Ok(Some(t)) => out["shipped"] = json!(t.cols().iter().map(|c| c.iter().map(F::enc).collect::<Vec<_>>()).collect::<Vec<_>>()),
                Err(m) => out["shipped"] = json!(m),
            }
            let table = TraceTable::new_from_cols(&cols);
            probe::start();
            let r = guard(|| prove::<F, A>(&table, pi, &o));
            let log = probe::stop();
            match r {
                Ok(Ok(p)) => {
                    out["prove"] = json!("ok");
                    if want || full {
                        out["plog"] = events(log);
                    }
                    if full {
                        out["proof0"] = proof_json::<F>(&p);
                    }
                    // the same statement proved by the independent prover
                    if sc["twin"].as_bool().unwrap_or(false) {
                        match guard(|| {
                            forge::<F>(&desc, &cols, &o, &Dev::parse(&json!({})), &mut rng)
                        }) {
                            Ok(Ok(f)) => {
                                out["same"] = json!(f.proof.serialize() == p.serialize());
                            }
                            other => {
                                out["same"] = json!(false);
                                out["twinerr"] = json!(format!("{:?}", other.map(|x| x.map(|_| ()))));
                            }
                        }
                    }
                    p
                }
                Ok(Err(e)) => {
                    out["prove"] = json!(format!("err: {:?}", e));
                    return out;
                }
                Err(m) => {
                    out["prove"] = json!(format!("panic: {}", m));
                    return out;
                }
            }
        }
        "forge" => match forge::<F>(&desc, &cols, &o, &Dev::parse(&sc["dev"]), &mut rng) {
            Ok(f) => {
                out["prove"] = json!("forged");
                f.proof
            }
            Err(m) => {
                out["prove"] = json!(format!("skip: {}", m));
                return out;
            }
        },
        a => panic!("act {}", a),
    };
    let mut applied = true;
    if let Some(es) = sc["edits"].as_array() {
        for e in es {
            applied &= edit::<F>(&mut proof, e);
        }
    }
    out["applied"] = json!(applied);
    if !applied {
        return out;
    }
    probe::start();
    let r = guard(|| verify::<F, A>(&proof, vpi, &vo));
    let vlog = probe::stop();
    match &r {
        Ok(b) => out["verify"] = json!(if *b { "accept" } else { "reject" }),
        Err(m) => {
            out["verify"] = json!("panic");
            out["panic"] = json!(m);
        }
    }
    if want {
        out["proof"] = proof_json::<F>(&proof);
        out["vlog"] = events(vlog);
        out["vopts"] = if sc["vopts"].is_object() { sc["vopts"].clone() } else { sc["opts"].clone() };
        out["vdesc"] = if sc["vdesc"].is_object() { sc["vdesc"].clone() } else { sc["desc"].clone() };
        out["act"] = sc["act"].clone();
    }
    out
}

/// The trace an example's own generator makes for the statement.
fn shipped<F: HField>(sc: &Value) -> Option<TraceTable<F>> {
    let (p, t) = (&sc["pub"], us(&sc["trace"], "T"));
    let ab = || [F::dec(&p["a0"]), F::dec(&p["a1"])];
    Some(match s(sc, "air") {
        "fib" => fibonacci_trace(ab(), t),
        "fib2" => fibonacci_trace_2_columns(ab(), t),
        "quad" => quadratic_trace(F::dec(&p["a0"]), t),
        "rap" => fibonacci_rap_trace(ab(), us(p, "steps")),
        "dummy" => dummy_trace(t),
        _ => return None,
    })
}

pub fn run_scenario<F: HField>(sc: &Value) -> Value
where
    Fe<F>: ByteConversion,
{
    let desc = Arc::new(Desc::parse(&sc["desc"]));
    let p = &sc["pub"];
    let vp = if sc["vpub"].is_object() { &sc["vpub"] } else { p };
    match s(sc, "air") {
        "data" => {
            let vd = if sc["vdesc"].is_object() { Arc::new(Desc::parse(&sc["vdesc"])) } else { desc.clone() };
            run_air::<F, DataAir<F>>(sc, &desc.clone(), &vd, desc)
        }
        "fib" => {
            let f = |p: &Value| FibonacciPublicInputs { a0: F::dec(&p["a0"]), a1: F::dec(&p["a1"]) };
            run_air::<F, FibonacciAIR<F>>(sc, &f(p), &f(vp), desc)
        }
        "fib2" => {
            let f = |p: &Value| FibonacciPublicInputs { a0: F::dec(&p["a0"]), a1: F::dec(&p["a1"]) };
            run_air::<F, Fibonacci2ColsAIR<F>>(sc, &f(p), &f(vp), desc)
        }
        "quad" => {
            let f = |p: &Value| QuadraticPublicInputs { a0: F::dec(&p["a0"]) };
            run_air::<F, QuadraticAIR<F>>(sc, &f(p), &f(vp), desc)
        }
        "rap" => {
            let f = |p: &Value| FibonacciRAPPublicInputs {
                steps: us(p, "steps"),
                a0: F::dec(&p["a0"]),
                a1: F::dec(&p["a1"]),
            };
            run_air::<F, FibonacciRAP<F>>(sc, &f(p), &f(vp), desc)
        }
        a => panic!("air {}", a),
    }
}

pub fn run_any(sc: &Value) -> Value {
    use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField;
    use lambdaworks_math::field::fields::toy::*;
    match s(sc, "field") {
        "t193" => run_scenario::<Toy193>(sc),
        "t257" => run_scenario::<Toy257>(sc),
        "t12289" => run_scenario::<Toy12289>(sc),
        "t40961" => run_scenario::<Toy40961>(sc),
        "stark252" => {
            if s(sc, "air") == "dummy" {
                let desc = Arc::new(Desc::parse(&sc["desc"]));
                run_air::<Stark252PrimeField, DummyAIR>(sc, &(), &(), desc)
            } else {
                run_scenario::<Stark252PrimeField>(sc)
            }
        }
        f => panic!("field {}", f),
    }
}
