//! Trace tables, frames, boundary constraints and exemptions, driven by JSON jobs.
use crate::common::*;
use crate::dair::*;
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField;
use lambdaworks_math::field::fields::toy::*;
use lambdaworks_math::polynomial::Polynomial;
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::starks::constraints::boundary::{BoundaryConstraint, BoundaryConstraints};
use lambdaworks_stark::starks::frame::Frame;
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::trace::TraceTable;
use lambdaworks_stark::starks::traits::AIR;
use serde_json::{json, Value};
use std::sync::Arc;

fn fes<F: HField>(v: &Value) -> Vec<Fe<F>> {
    v.as_array().expect("list").iter().map(F::dec).collect()
}
fn idx(v: &Value) -> Vec<usize> {
    v.as_array().expect("list").iter().map(|x| x.as_u64().unwrap() as usize).collect()
}
fn enc<F: HField>(r: &[Fe<F>]) -> Value {
    r.iter().map(F::enc).collect()
}
fn enc2<F: HField>(r: &[Vec<Fe<F>>]) -> Value {
    r.iter().map(|x| enc::<F>(x)).collect()
}
fn poly<F: HField>(p: &Polynomial<Fe<F>>) -> Value {
    let mut c = p.coefficients.clone();
    while c.last() == Some(&Fe::<F>::zero()) {
        c.pop();
    }
    enc::<F>(&c)
}
fn frame<F: HField>(f: &Frame<F>) -> Value {
    let rows: Vec<Value> = (0..f.num_rows()).map(|k| enc::<F>(f.get_row(k))).collect();
    json!({"n": f.num_rows(), "w": f.num_columns(), "rows": rows})
}

fn observe<F: HField>(t: &TraceTable<F>, o: &Value) -> Value {
    let n = t.n_rows();
    let byrow: Vec<Value> = (0..n).map(|k| enc::<F>(t.get_row(k))).collect();
    let bycell: Vec<Value> = (0..n).map(|k| (0..t.n_cols).map(|c| F::enc(&t.get(k, c))).collect()).collect();
    let frames: Vec<Value> = if n == 0 {
        vec![]
    } else {
        arr(o, "frames")
            .iter()
            .map(|f| match guard(|| Frame::read_from_trace(t, us(f, "step"), us(f, "blowup") as u8, &idx(&f["offs"]))) {
                // a frame of no columns has no rows to count
                Ok(x) if x.num_columns() > 0 => frame::<F>(&x),
                _ => json!("none"),
            })
            .collect()
    };
    let mut v = json!({"rows": enc2::<F>(&t.rows()), "n": n, "w": t.n_cols, "empty": t.is_empty(),
        "last": if n == 0 { json!([]) } else { enc::<F>(t.last_row()) },
        "cols": enc2::<F>(&t.cols()), "byrow": byrow, "bycell": bycell, "frames": frames});
    if n.is_power_of_two() && n <= 32 && t.n_cols > 0 {
        let ps = t.compute_trace_polys();
        let g = F::get_primitive_root_of_unity(n.trailing_zeros() as u64).unwrap();
        v["evals"] = enc2::<F>(&Frame::<F>::get_trace_evaluations(&ps, &F::dec(&o["x"]), &idx(&o["offs"]), &g));
        v["polys"] = ps.iter().map(poly::<F>).collect();
    }
    v
}

fn tables<F: HField>(sc: &Value) -> Value {
    let mut t = TraceTable::<F>::empty();
    arr(sc, "ops")
        .iter()
        .map(|o| {
            t = match s(o, "op") {
                "empty" => TraceTable::empty(),
                "new" => TraceTable::new(fes::<F>(&o["data"]), us(o, "w")),
                "cols" => TraceTable::new_from_cols(&arr(o, "cols").iter().map(fes::<F>).collect::<Vec<_>>()),
                "select" => t.get_cols(&idx(&o["cs"])),
                "extend" => t.concatenate(fes::<F>(&o["data"]), us(o, "n")),
                k => panic!("operation {}", k),
            };
            observe(&t, o)
        })
        .collect()
}

fn bounds<F: HField>(sc: &Value) -> Value {
    let b = BoundaryConstraints::from_constraints(
        arr(sc, "cons")
            .iter()
            .map(|c| match us(c, "col") {
                0 => BoundaryConstraint::new_simple(us(c, "step"), F::dec(&c["val"])),
                k => BoundaryConstraint::new(k, us(c, "step"), F::dec(&c["val"])),
            })
            .collect(),
    );
    let g = F::get_primitive_root_of_unity(u(sc, "ord")).unwrap();
    let cols = idx(&sc["cols"]);
    json!({"steps": cols.iter().map(|c| b.steps(*c)).collect::<Vec<_>>(),
        "allsteps": b.steps_for_boundary(), "allcols": b.cols_for_boundary(),
        "roots": enc2::<F>(&b.generate_roots_of_unity(&g, &cols)), "values": enc2::<F>(&b.values(&cols)),
        "zero": cols.iter().map(|c| poly::<F>(&b.compute_zerofier(&g, *c))).collect::<Vec<_>>()})
}

fn exempt<F: HField>(sc: &Value) -> Value
where
    Fe<F>: ByteConversion,
{
    let exs = idx(&sc["exs"]);
    let desc = Desc {
        cols: 1,
        aux: 0,
        nch: 0,
        offs: vec![0],
        cons: exs.iter().map(|e| Con { deg: 1, ex: *e, terms: vec![] }).collect(),
        bound: vec![],
        dbound: 1,
        nex: 0,
    };
    let air = DataAir::<F>::new(1 << us(sc, "log"), &Arc::new(desc), &ProofOptions::default_test_options());
    let g = F::get_primitive_root_of_unity(u(sc, "log")).unwrap();
    json!({"prover": air.transition_exemptions().iter().map(poly::<F>).collect::<Vec<_>>(),
        "verifier": air.transition_exemptions_verifier(&g.inv()).iter().map(poly::<F>).collect::<Vec<_>>()})
}

fn go<F: HField>(sc: &Value) -> Value
where
    Fe<F>: ByteConversion,
{
    match s(sc, "k") {
        "tables" => tables::<F>(sc),
        "bounds" => bounds::<F>(sc),
        _ => exempt::<F>(sc),
    }
}

pub fn run(sc: &Value) -> Value {
    let mut out = sc.clone();
    let r = guard(|| match s(sc, "field") {
        "stark252" => go::<Stark252PrimeField>(sc),
        "t193" => go::<Toy193>(sc),
        "t257" => go::<Toy257>(sc),
        "t12289" => go::<Toy12289>(sc),
        _ => go::<Toy40961>(sc),
    });
    match r {
        Ok(v) => out["res"] = v,
        Err(m) => out["panic"] = json!(m),
    }
    out
}
