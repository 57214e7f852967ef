//! Sessions over a transcript: draws, evaluations, FRI commitments and openings.
use crate::common::*;
use crate::dair::*;
use lambdaworks_crypto::fiat_shamir::default_transcript::DefaultTranscript;
use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField;
use lambdaworks_math::field::fields::toy::*;
use lambdaworks_math::polynomial::Polynomial;
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::starks::constraints::evaluation_table::ConstraintEvaluationTable;
use lambdaworks_stark::starks::fri::fri_commitment::FriLayer;
use lambdaworks_stark::starks::fri::{fri_commit_phase, fri_query_phase};
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::prover::evaluate_polynomial_on_lde_domain;
use lambdaworks_stark::starks::traits::AIR;
use lambdaworks_stark::starks::transcript::*;
use serde_json::{json, Value};
use std::sync::Arc;

fn fes<F: HField>(v: &Value) -> Vec<Fe<F>> {
    v.as_array().expect("list").iter().map(F::dec).collect()
}
fn enc<F: HField>(r: &[Fe<F>]) -> Value {
    r.iter().map(F::enc).collect()
}
fn path(p: &[[u8; 32]]) -> Value {
    p.iter().map(|n| hex(n)).collect()
}

struct Session<F: HField>
where
    Fe<F>: ByteConversion,
{
    t: DefaultTranscript,
    layers: Vec<FriLayer<F>>,
    n: usize,
}

fn step<F: HField>(me: &mut Session<F>, o: &Value) -> Value
where
    Fe<F>: ByteConversion,
{
    match s(o, "op") {
        "absorb" => {
            me.t.append(&unhex(s(o, "b")));
            json!([])
        }
        "felts" => match us(o, "n") {
            1 => json!([F::enc(&transcript_to_field::<F, _>(&mut me.t))]),
            n => enc::<F>(&batch_sample_challenges::<F, _>(n, &mut me.t)),
        },
        "index" => json!(format!("{:x}", transcript_to_usize(&mut me.t))),
        "z" => F::enc(&sample_z_ood::<F, _>(&fes::<F>(&o["lde"]), &fes::<F>(&o["tr"]), &mut me.t)),
        "eval" => {
            let p = Polynomial::new(&fes::<F>(&o["poly"]));
            match evaluate_polynomial_on_lde_domain(&p, us(o, "blowup"), us(o, "n"), &F::dec(&o["off"])) {
                Ok(v) => enc::<F>(&v),
                Err(_) => json!("error"),
            }
        }
        "interp" => {
            let vals = fes::<F>(&o["vals"]);
            let mut table = ConstraintEvaluationTable::<F>::new(1, &vals);
            table.evaluations_acc = vals;
            let mut c = table.compute_composition_poly(&F::dec(&o["off"])).coefficients.clone();
            while c.last() == Some(&Fe::<F>::zero()) {
                c.pop();
            }
            enc::<F>(&c)
        }
        "commit" => {
            let p = Polynomial::new(&fes::<F>(&o["poly"]));
            let (last, layers) = fri_commit_phase(us(o, "layers"), p, &mut me.t, &F::dec(&o["off"]), us(o, "n"));
            me.n = us(o, "n");
            me.layers = layers;
            let ls: Vec<Value> = me
                .layers
                .iter()
                .map(|l| json!({"off": F::enc(&l.coset_offset), "n": l.domain_size, "root": hex(&l.merkle_tree.root), "ev": enc::<F>(&l.evaluation)}))
                .collect();
            json!({"last": F::enc(&last), "layers": ls})
        }
        "query" => {
            let mut opts = ProofOptions::default_test_options();
            opts.fri_number_of_queries = us(o, "nq");
            let desc = Desc { cols: 1, aux: 0, nch: 0, offs: vec![0], cons: vec![], bound: vec![], dbound: 1, nex: 0 };
            let air = DataAir::<F>::new(1, &Arc::new(desc), &opts);
            let (q, iotas) = fri_query_phase(&air, me.n, &me.layers, &mut me.t);
            let qs: Vec<Value> = q
                .iter()
                .map(|d| {
                    (0..me.layers.len())
                        .map(|k| {
                            json!({"e": F::enc(&d.layers_evaluations[k]), "es": F::enc(&d.layers_evaluations_sym[k]),
                                "p": path(&d.layers_auth_paths[k].merkle_path), "ps": path(&d.layers_auth_paths_sym[k].merkle_path)})
                        })
                        .collect()
                })
                .collect();
            json!({"iotas": iotas, "q": qs})
        }
        k => panic!("operation {}", k),
    }
}

fn go<F: HField>(sc: &Value, res: &mut Vec<Value>) -> Result<(), String>
where
    Fe<F>: ByteConversion,
{
    let mut me = Session::<F> { t: DefaultTranscript::new(), layers: vec![], n: 0 };
    for o in arr(sc, "ops") {
        res.push(guard(|| step(&mut me, o))?);
    }
    Ok(())
}

pub fn run(sc: &Value) -> Value {
    let mut out = sc.clone();
    let mut res = vec![];
    let r = match s(sc, "field") {
        "stark252" => go::<Stark252PrimeField>(sc, &mut res),
        "t193" => go::<Toy193>(sc, &mut res),
        "t257" => go::<Toy257>(sc, &mut res),
        "t12289" => go::<Toy12289>(sc, &mut res),
        _ => go::<Toy40961>(sc, &mut res),
    };
    out["res"] = json!(res);
    if let Err(m) = r {
        out["panic"] = json!(m);
    }
    out
}
