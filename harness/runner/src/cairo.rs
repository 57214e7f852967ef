//! The Cairo side: decoding, trace building, AIR evaluation, proving, wire formats,
//! imports and the runner, driven by JSON jobs.
use crate::adv::opts;
use crate::common::*;
use crate::stark::{events, proof_json};
use lambdaworks_crypto::probe;
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField;
use lambdaworks_math::traits::{ByteConversion, Deserializable, Serializable};
use lambdaworks_stark::cairo::air::*;
use lambdaworks_stark::cairo::cairo_layout::CairoLayout;
use lambdaworks_stark::cairo::cairo_mem::CairoMemory;
use lambdaworks_stark::cairo::decode::{
    instruction_flags::CairoInstructionFlags, instruction_offsets::InstructionOffsets,
};
use lambdaworks_stark::cairo::execution_trace::{build_cairo_execution_trace, build_main_trace};
use lambdaworks_stark::cairo::errors::CairoImportError;
use lambdaworks_stark::cairo::register_states::{RegisterStates, RegistersState};
use lambdaworks_stark::cairo::runner::run::{generate_prover_args, run_program, CairoVersion};
use lambdaworks_stark::cairo::runner::{file_writer::FileWriter, vec_writer::VecWriter};
use crate::validate_trace;
use lambdaworks_stark::starks::domain::Domain;
use lambdaworks_stark::starks::frame::Frame;
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::proof::stark::StarkProof;
use lambdaworks_stark::starks::trace::TraceTable;
use lambdaworks_stark::starks::traits::AIR;
use serde_json::{json, Value};
use std::collections::HashMap;

type S = Stark252PrimeField;
type FE = Fe<S>;

fn h64(v: &Value) -> u64 {
    match v {
        Value::String(s) => u64::from_str_radix(s, 16).expect("u64 hex"),
        _ => v.as_u64().expect("u64"),
    }
}
fn e(x: &FE) -> Value {
    <S as HField>::enc(x)
}
fn d(v: &Value) -> FE {
    <S as HField>::dec(v)
}
fn rows_json(t: &TraceTable<S>) -> Value {
    json!(t.rows().iter().map(|r| r.iter().map(e).collect::<Vec<_>>()).collect::<Vec<_>>())
}
fn hx(n: u64) -> String {
    format!("{:x}", n)
}

fn regs(v: &Value) -> RegisterStates {
    RegisterStates {
        rows: arr(v, "regs")
            .iter()
            .map(|r| RegistersState { pc: h64(&r[0]), ap: h64(&r[1]), fp: h64(&r[2]) })
            .collect(),
    }
}
fn mem(v: &Value) -> CairoMemory {
    CairoMemory::new(arr(v, "mem").iter().map(|c| (h64(&c[0]), d(&c[1]))).collect())
}
fn segs(v: &Value) -> MemorySegmentMap {
    let mut m = MemorySegmentMap::new();
    for (k, t) in [("rc", MemorySegment::RangeCheck), ("out", MemorySegment::Output)] {
        if let Some(r) = v[k].as_array() {
            if r.len() == 2 {
                m.insert(t, h64(&r[0])..h64(&r[1]));
            }
        }
    }
    m
}

/// Public memory as a list sorted by address, numbers in hex.
pub fn pub_json(p: &PublicInputs) -> Value {
    let mut pm: Vec<(&FE, &FE)> = p.public_memory.iter().collect();
    pm.sort_by_key(|x| x.0.representative());
    let seg = |k: MemorySegment| -> Value {
        p.memory_segments
            .get(&k)
            .map(|r| json!([hx(r.start), hx(r.end)]))
            .unwrap_or(json!([]))
    };
    let o = |x: Option<u16>| -> Value { x.map(|x| json!([hx(x as u64)])).unwrap_or(json!([])) };
    json!({
        "pc_init": e(&p.pc_init), "ap_init": e(&p.ap_init), "fp_init": e(&p.fp_init),
        "pc_final": e(&p.pc_final), "ap_final": e(&p.ap_final),
        "rcmin": o(p.range_check_min), "rcmax": o(p.range_check_max),
        "rc": seg(MemorySegment::RangeCheck), "out": seg(MemorySegment::Output),
        "pm": pm.iter().map(|(a, v)| json!([e(a), e(v)])).collect::<Vec<_>>(),
        "steps": hx(p.num_steps as u64),
    })
}
pub fn pub_parse(v: &Value) -> PublicInputs {
    let o = |x: &Value| -> Option<u16> {
        x.as_array().and_then(|a| a.first()).map(|x| h64(x) as u16)
    };
    PublicInputs {
        pc_init: d(&v["pc_init"]),
        ap_init: d(&v["ap_init"]),
        fp_init: d(&v["fp_init"]),
        pc_final: d(&v["pc_final"]),
        ap_final: d(&v["ap_final"]),
        range_check_min: o(&v["rcmin"]),
        range_check_max: o(&v["rcmax"]),
        memory_segments: segs(v),
        public_memory: arr(v, "pm").iter().map(|c| (d(&c[0]), d(&c[1]))).collect(),
        num_steps: h64(&v["steps"]) as usize,
    }
}

fn table(rows: &Value) -> TraceTable<S> {
    let rs = rows.as_array().unwrap();
    let w = rs[0].as_array().unwrap().len();
    TraceTable::new(
        rs.iter().flat_map(|r| r.as_array().unwrap().iter().map(d)).collect(),
        w,
    )
}

fn chs(v: &Value) -> CairoRAPChallenges {
    CairoRAPChallenges {
        alpha_memory: d(&v["alpha"]),
        z_memory: d(&v["zmem"]),
        z_range_check: d(&v["zrc"]),
    }
}

fn any_opts(v: &Value) -> ProofOptions {
    if v.is_object() {
        opts(v)
    } else {
        ProofOptions::default_test_options()
    }
}

/// Which rows of a full (main+aux) trace some transition constraint rejects, and which
/// boundary cells are wrong.
fn violations(air: &CairoAIR, full: &TraceTable<S>, ch: &CairoRAPChallenges) -> Value {
    let t = full.n_rows();
    let ex = &air.context().transition_exemptions;
    let mut bad = vec![];
    let mut cnt = vec![];
    for r in 0..t {
        let mut data = full.get_row(r).to_vec();
        data.extend_from_slice(full.get_row((r + 1) % t));
        let c = air.compute_transition(&Frame::new(data, full.n_cols), ch);
        let n = c.iter().zip(ex).filter(|(x, e)| r + *e < t && **x != FE::zero()).count();
        if n > 0 {
            bad.push(r);
            cnt.push(n);
        }
    }
    let bs = air.boundary_constraints(ch);
    let bb = bs
        .constraints
        .iter()
        .any(|b| b.step >= t || full.get(b.step, b.col) != b.value);
    json!({"rows": bad, "n": cnt, "bnd": bb})
}

/// What trace validation says of the whole trace.
fn validity(air: &CairoAIR, full: &TraceTable<S>, ch: &CairoRAPChallenges) -> Value {
    match guard(|| validate_trace(air, &full.compute_trace_polys(), &Domain::new(air), ch)) {
        Ok(b) => json!(b),
        Err(m) => json!(m),
    }
}

fn apply_corrupt(t: &mut TraceTable<S>, c: &Value) {
    for x in c.as_array().unwrap_or(&vec![]) {
        let i = us(x, "row") * t.n_cols + us(x, "col");
        t.table[i] = if x["v"].is_null() { &t.table[i] + d(&x["d"]) } else { d(&x["v"]) };
    }
}

pub fn run(sc: &Value) -> Value {
    let mut out = json!({"id": sc["id"]});
    match guard(|| run_inner(sc)) {
        Ok(Value::Object(m)) => {
            for (k, v) in m {
                out[k] = v;
            }
        }
        Ok(_) => unreachable!(),
        Err(m) => out["panic"] = json!(m),
    }
    out
}

fn run_inner(sc: &Value) -> Value {
    match s(sc, "k") {
        "decode" => decode(sc),
        "trace" => trace(sc),
        "runlump" => run_lump(&sc["c"]),
        "sat" => sat(sc),
        "prove" => prove(sc),
        "stored" => stored(sc),
        "scaled" => scaled(sc),
        "wireverify" => wireverify(sc),
        "pubwire" => wire::<PublicInputs>(sc, pub_parse, pub_json),
        "prooflump" => wire_lump::<StarkProof<S>>(sc, lump_proof(&sc["c"]), wire_parse, wire_json),
        "publump" => wire_lump::<PublicInputs>(sc, lump_pub(&sc["c"]), pub_parse, pub_json),
        "proofwire" => wire::<StarkProof<S>>(sc, wire_parse, wire_json),
        "imports" => imports(sc),
        "lookups" => lookups(sc),
        "writer" => writer(sc),
        "program" => program(sc),
        k => panic!("job {}", k),
    }
}

/// Words to flags and offsets.
fn decode(sc: &Value) -> Value {
    let one = |w: &Value| -> Value {
        let w = d(w);
        match guard(|| {
            CairoInstructionFlags::try_from(&w).map(|f| decoded(&f, &InstructionOffsets::new(&w)))
        }) {
            Ok(Ok(v)) => v,
            Ok(Err(x)) => json!({"ok": 0, "err": format!("{:?}", x)}),
            Err(m) => json!({"ok": 2, "err": m}),
        }
    };
    json!({"insts": sc["insts"], "res": arr(sc, "insts").iter().map(one).collect::<Vec<_>>()})
}

fn trace(sc: &Value) -> Value {
    let (r, m, sg) = (regs(sc), mem(sc), segs(&sc["segs"]));
    let mut out = json!({});
    let mut p = match guard(|| PublicInputs::from_regs_and_mem(&r, &m, us(sc, "size"), &sg)) {
        Ok(p) => p,
        Err(x) => return json!({"panic": x, "at": "pub"}),
    };
    out["pub0"] = pub_json(&p);
    match guard(|| build_cairo_execution_trace(&r, &m, &p)) {
        Ok(t) => out["exec"] = rows_json(&t),
        Err(x) => {
            out["panic"] = json!(x);
            out["at"] = json!("exec");
            return out;
        }
    }
    if sc["execonly"].as_bool().unwrap_or(false) {
        return out;
    }
    let main = match guard(|| build_main_trace(&r, &m, &mut p)) {
        Ok(t) => t,
        Err(x) => {
            out["panic"] = json!(x);
            out["at"] = json!("main");
            return out;
        }
    };
    out["main"] = rows_json(&main);
    out["pub"] = pub_json(&p);
    if sc["ch"].is_object() {
        let air = CairoAIR::new(main.n_rows(), &p, &any_opts(&sc["opts"]));
        let aux = match guard(|| air.build_auxiliary_trace(&main, &chs(&sc["ch"]))) {
            Ok(t) => t,
            Err(x) => {
                out["panic"] = json!(x);
                out["at"] = json!("aux");
                return out;
            }
        };
        out["aux"] = rows_json(&aux);
        let full = main.concatenate(aux.table.clone(), aux.n_cols);
        out["viol"] = violations(&air, &full, &chs(&sc["ch"]));
        out["viol"]["valid"] = validity(&air, &full, &chs(&sc["ch"]));
    }
    out
}

/// Distinct values as intervals of consecutive ones.
fn intervals(v: impl Iterator<Item = FE>) -> Value {
    let set: std::collections::BTreeSet<u64> = v
        .map(|x| {
            let r = x.representative();
            if r.limbs[..3].iter().any(|l| *l != 0) { u64::MAX } else { r.limbs[3] }
        })
        .collect();
    let mut out: Vec<[u64; 2]> = vec![];
    for x in set {
        match out.last_mut() {
            Some(l) if l[1].checked_add(1) == Some(x) => l[1] = x,
            _ => out.push([x, x]),
        }
    }
    out.truncate(20);
    json!(out)
}

/// A long run given by a rule: the program in cells 1 to 4, then cell a holds a + v, and
/// two instructions that take turns.
fn run_lump(c: &Value) -> Value {
    let (n, base, top) = (h64(&c["n"]), h64(&c["base"]), h64(&c["top"]));
    let mut data: HashMap<u64, FE> = arr(c, "prog").iter().enumerate().map(|(i, w)| (i as u64 + 1, d(w))).collect();
    // code and stack may lie far up
    let (code, stack) = (h64(&c["hi"][0]), h64(&c["hi"][1]));
    let low: Vec<_> = data.drain().collect();
    data.extend(low.iter().map(|(a, w)| (a + code, *w)));
    data.extend(low);
    data.extend((base - 1..=top).map(|a| (a + stack, FE::from(a + h64(&c["v"])))));
    let m = CairoMemory { data };
    let r = RegisterStates {
        rows: (0..n)
            .map(|k| RegistersState {
                pc: code + if k % 2 == 0 { 1 } else { 3 },
                ap: stack + base + (k + 1) / 2,
                fp: stack + base,
            })
            .collect(),
    };
    let mut sg: MemorySegmentMap = HashMap::new();
    if let [a, b] = &arr(c, "out")[..] {
        sg.insert(MemorySegment::Output, h64(a)..h64(b));
    }
    let at: Vec<usize> = arr(c, "at").iter().map(|x| h64(x) as usize).collect();
    let pick = |t: &TraceTable<S>| -> Value {
        json!(at.iter().map(|k| t.get_row(*k).iter().map(e).collect::<Vec<_>>()).collect::<Vec<_>>())
    };
    match guard(|| {
        let mut p = PublicInputs::from_regs_and_mem(&r, &m, 4, &sg);
        let mut out = json!({"c": c, "pub0": pub_json(&p)});
        let exec = build_cairo_execution_trace(&r, &m, &p);
        out["steps"] = json!(exec.n_rows());
        out["exec"] = pick(&exec);
        if code != 0 || stack != 0 {
            return out;
        }
        let main = build_main_trace(&r, &m, &mut p);
        out["len"] = json!(main.n_rows());
        out["main"] = pick(&main);
        let rows = || (0..main.n_rows()).map(|k| main.get_row(k));
        out["offs"] = intervals(rows().flat_map(|w| [w[OFF_DST], w[OFF_OP0], w[OFF_OP1]]));
        let acc: Vec<(FE, FE)> = rows()
            .flat_map(|w| {
                [
                    (w[FRAME_PC], w[FRAME_INST]),
                    (w[FRAME_DST_ADDR], w[FRAME_DST]),
                    (w[FRAME_OP0_ADDR], w[FRAME_OP0]),
                    (w[FRAME_OP1_ADDR], w[FRAME_OP1]),
                ]
            })
            .collect();
        out["addrs"] = intervals(acc.iter().map(|x| x.0).chain(p.public_memory.keys().copied()));
        out["zeros"] = json!(acc.iter().rev().take_while(|x| **x == (FE::zero(), FE::zero())).count());
        out["sel"] = json!(rows().filter(|w| w[FRAME_SELECTOR] == FE::one()).count());
        out["pub"] = pub_json(&p);
        out
    }) {
        Ok(v) => v,
        Err(x) => json!({"c": c, "panic": x}),
    }
}

/// AIR verdicts on (corrupted) full traces.
fn sat(sc: &Value) -> Value {
    let p = pub_parse(&sc["pub"]);
    let main = table(&sc["main"]);
    let ch = chs(&sc["ch"]);
    let air = CairoAIR::new(main.n_rows(), &p, &any_opts(&sc["opts"]));
    let full0 = if sc["aux"].is_array() {
        let aux = table(&sc["aux"]);
        main.concatenate(aux.table.clone(), aux.n_cols)
    } else {
        let aux = air.build_auxiliary_trace(&main, &ch);
        main.concatenate(aux.table.clone(), aux.n_cols)
    };
    let mut res = vec![];
    for c in arr(sc, "cases") {
        let mut full = full0.clone();
        apply_corrupt(&mut full, c);
        res.push(match guard(|| violations(&air, &full, &ch)) {
            Ok(mut v) => {
                if sc["validate"].as_bool().unwrap_or(false) {
                    v["valid"] = validity(&air, &full, &ch);
                }
                v
            }
            Err(m) => json!({"panic": m}),
        });
    }
    json!({"res": res})
}

fn verdict(f: impl FnOnce() -> bool) -> Value {
    match guard(f) {
        Ok(true) => json!({"verify": "accept"}),
        Ok(false) => json!({"verify": "reject"}),
        Err(m) => json!({"verify": "panic", "panic": m}),
    }
}

/// The statement a job is about: either a machine run or ready-made rows.
fn statement(sc: &Value) -> Result<(TraceTable<S>, PublicInputs), String> {
    if sc["main"].is_array() {
        return Ok((table(&sc["main"]), pub_parse(&sc["pub"])));
    }
    if sc["prog"].is_string() {
        let rng = sc["outrange"].as_array().map(|r| h64(&r[0])..h64(&r[1]));
        let t = s(sc, "prog").as_bytes();
        return guard(|| generate_prover_args(t, &CairoVersion::V0, &rng))?.map_err(|e| format!("{:?}", e));
    }
    let (r, m, sg) = (regs(sc), mem(sc), segs(&sc["segs"]));
    guard(|| {
        let mut p = PublicInputs::from_regs_and_mem(&r, &m, us(sc, "size"), &sg);
        let t = build_main_trace(&r, &m, &mut p);
        (t, p)
    })
}

/// Verdicts for the statement itself and for changed statements or proofs.
fn verdicts(sc: &Value, proof: &StarkProof<S>, pp: &PublicInputs, o: &ProofOptions, out: &mut Value) {
    let mut vs = vec![];
    let mut list = vec![json!({"pub": pub_json(pp)})];
    if let Some(a) = sc["claims"].as_array() {
        list.extend(a.iter().cloned());
    }
    for c in &list {
        let mut q = crate::stark::dup(proof);
        let mut applied = true;
        for ed in c["edits"].as_array().unwrap_or(&vec![]) {
            applied &= crate::stark::edit::<S>(&mut q, ed);
        }
        let vp = if c["pub"].is_object() { pub_parse(&c["pub"]) } else { edit_pub(pp, &c["pubedit"]) };
        let vo = if c["opts"].is_object() { any_opts(&c["opts"]) } else { o.clone() };
        // what is checked went through the wire when asked
        let mut v = if !applied {
            json!({"verify": "skip"})
        } else if c["wire"].as_bool().unwrap_or(false) {
            verdict(|| {
                let q = StarkProof::<S>::deserialize(&q.serialize()).unwrap();
                let vp = PublicInputs::deserialize(&vp.serialize()).unwrap();
                verify_cairo_proof(&q, &vp, &vo)
            })
        } else {
            verdict(|| verify_cairo_proof(&q, &vp, &vo))
        };
        v["tag"] = c["tag"].clone();
        v["pub"] = pub_json(&vp);
        if applied && c["record"].as_bool().unwrap_or(false) {
            v["proof"] = proof_json::<S>(&q);
            v["opts"] = if c["opts"].is_object() { c["opts"].clone() } else { sc["opts"].clone() };
            probe::start();
            let _ = guard(|| verify_cairo_proof(&q, &vp, &vo));
            v["vlog"] = events(probe::stop());
        }
        vs.push(v);
    }
    out["vs"] = json!(vs);
    if sc["record"].as_bool().unwrap_or(false) {
        out["proof"] = proof_json::<S>(proof);
        probe::start();
        let _ = guard(|| verify_cairo_proof(proof, pp, o));
        out["vlog"] = events(probe::stop());
        out["opts"] = sc["opts"].clone();
        out["fld"] = <S as HField>::params();
    }
}

/// A proof some earlier run of the command-line tool left.
fn stored(sc: &Value) -> Value {
    let b = std::fs::read(s(sc, "file")).unwrap();
    let n = u64::from_be_bytes(b[..8].try_into().unwrap()) as usize;
    let Ok(proof) = StarkProof::<S>::deserialize(&b[8..8 + n]) else { return json!({"prove": "undecodable"}) };
    let Ok(p) = PublicInputs::deserialize(&b[8 + n..]) else { return json!({"prove": "undecodable"}) };
    let mut out = json!({"prove": "stored", "pub": pub_json(&p)});
    verdicts(sc, &proof, &p, &any_opts(&sc["opts"]), &mut out);
    out
}

fn prove(sc: &Value) -> Value {
    let (mut t, p) = match statement(sc) {
        Ok(x) => x,
        Err(m) => return json!({"prove": format!("build: {}", m)}),
    };
    apply_corrupt(&mut t, &sc["corrupt"]);
    let mut out = json!({"pub": pub_json(&p), "T": t.n_rows()});
    if sc["rows"].as_bool().unwrap_or(false) {
        out["main"] = rows_json(&t);
    }
    let o = any_opts(&sc["opts"]);
    // what the prover is told may differ from the trace
    let pp = if sc["proverpub"].is_object() { pub_parse(&sc["proverpub"]) } else { p.clone() };
    probe::start();
    let r = guard(|| generate_cairo_proof(&t, &pp, &o));
    let plog = probe::stop();
    let proof = match r {
        Ok(Ok(x)) => x,
        Ok(Err(x)) => {
            out["prove"] = json!(format!("err: {:?}", x));
            return out;
        }
        Err(m) => {
            out["prove"] = json!(format!("panic: {}", m));
            return out;
        }
    };
    out["prove"] = json!("ok");
    if sc["again"].as_bool().unwrap_or(false) {
        let q = generate_cairo_proof(&t, &pp, &o).ok();
        out["again"] = json!(q.map(|q| q.serialize() == proof.serialize()));
        out["digest"] = json!(hex(&crate::adv::keccak(&[&proof.serialize()])));
    }
    if sc["rawwire"].as_bool().unwrap_or(false) {
        out["rawproof"] = json!(hex(&proof.serialize()));
        out["rawpub"] = json!(hex(&pp.serialize()));
        out["opts"] = sc["opts"].clone();
    }
    if sc["record"].as_bool().unwrap_or(false) {
        out["plog"] = events(plog);
    }
    verdicts(sc, &proof, &pp, &o, &mut out);
    out
}

/// The Cairo arithmetization with a prover that scales the memory argument so that it ends
/// where the claimed public inputs want it to end.
#[derive(Clone)]
struct Scaled {
    inner: CairoAIR,
    real: PublicInputs,
    claim: PublicInputs,
}

impl AIR for Scaled {
    type Field = S;
    type RAPChallenges = CairoRAPChallenges;
    type PublicInputs = (PublicInputs, PublicInputs);

    fn new(t: usize, p: &Self::PublicInputs, o: &ProofOptions) -> Self {
        Scaled { inner: CairoAIR::new(t, &p.1, o), real: p.0.clone(), claim: p.1.clone() }
    }
    fn build_auxiliary_trace(&self, main: &TraceTable<S>, ch: &CairoRAPChallenges) -> TraceTable<S> {
        let real = CairoAIR::new(self.trace_length(), &self.real, self.options());
        let mut aux = real.build_auxiliary_trace(main, ch);
        let mut want = ch.z_memory.pow(self.claim.public_memory.len());
        for (a, v) in &self.claim.public_memory {
            want = want * (&ch.z_memory - (a + &ch.alpha_memory * v)).inv();
        }
        let n = aux.n_cols;
        let k = want * aux.table[(main.n_rows() - 1) * n + 14].inv();
        for r in 0..main.n_rows() {
            for c in 11..15 {
                aux.table[r * n + c] = &aux.table[r * n + c] * &k;
            }
        }
        aux
    }
    fn build_rap_challenges<T: lambdaworks_crypto::fiat_shamir::transcript::Transcript>(&self, t: &mut T) -> CairoRAPChallenges {
        self.inner.build_rap_challenges(t)
    }
    fn number_auxiliary_rap_columns(&self) -> usize {
        self.inner.number_auxiliary_rap_columns()
    }
    fn composition_poly_degree_bound(&self) -> usize {
        self.inner.composition_poly_degree_bound()
    }
    fn compute_transition(&self, f: &Frame<S>, ch: &CairoRAPChallenges) -> Vec<FE> {
        self.inner.compute_transition(f, ch)
    }
    fn boundary_constraints(
        &self,
        ch: &CairoRAPChallenges,
    ) -> lambdaworks_stark::starks::constraints::boundary::BoundaryConstraints<S> {
        self.inner.boundary_constraints(ch)
    }
    fn context(&self) -> &lambdaworks_stark::starks::context::AirContext {
        self.inner.context()
    }
    fn trace_length(&self) -> usize {
        self.inner.trace_length()
    }
    fn pub_inputs(&self) -> &Self::PublicInputs {
        unreachable!()
    }
}

/// A run proven for a claim that is not true of it.
fn scaled(sc: &Value) -> Value {
    let (t, p) = match statement(sc) {
        Ok(x) => x,
        Err(m) => return json!({"prove": format!("build: {}", m)}),
    };
    let claim = edit_pub(&p, &sc["claim"]);
    let o = any_opts(&sc["opts"]);
    let mut v = match lambdaworks_stark::starks::prover::prove::<S, Scaled>(&t, &(p, claim.clone()), &o) {
        Ok(proof) => verdict(|| verify_cairo_proof(&proof, &claim, &o)),
        Err(e) => json!({"prove": format!("err: {:?}", e)}),
    };
    v["pub"] = pub_json(&claim);
    v
}

/// One change to public inputs, described by name.
pub fn edit_pub(p: &PublicInputs, ed: &Value) -> PublicInputs {
    let mut p = p.clone();
    let dl = if ed["d"].is_null() { FE::one() } else { d(&ed["d"]) };
    let n = ed["n"].as_i64().unwrap_or(1);
    match ed["f"].as_str().unwrap_or("") {
        "" => {}
        "pc_init" => p.pc_init = &p.pc_init + &dl,
        "ap_init" => p.ap_init = &p.ap_init + &dl,
        "fp_init" => p.fp_init = &p.fp_init + &dl,
        "pc_final" => p.pc_final = &p.pc_final + &dl,
        "ap_final" => p.ap_final = &p.ap_final + &dl,
        "rcmin" => p.range_check_min = p.range_check_min.map(|x| (x as i64 + n) as u16),
        "rcmax" => p.range_check_max = p.range_check_max.map(|x| (x as i64 + n) as u16),
        "rcmin_none" => p.range_check_min = None,
        "rcmax_none" => p.range_check_max = None,
        "steps" => p.num_steps = (p.num_steps as i64 + n) as usize,
        "steps_set" => p.num_steps = ed["n"].as_u64().unwrap() as usize,
        "pmval" => {
            let a = d(&ed["a"]);
            let v = p.public_memory[&a] + &dl;
            p.public_memory.insert(a, v);
        }
        "pmaddr" => {
            let a = d(&ed["a"]);
            let v = p.public_memory.remove(&a).unwrap();
            p.public_memory.insert(&a + &dl, v);
        }
        "pmdel" => {
            p.public_memory.remove(&d(&ed["a"]));
        }
        "pmadd" => {
            p.public_memory.insert(d(&ed["a"]), d(&ed["v"]));
        }
        "pmswap" => {
            let (a, b) = (d(&ed["a"]), d(&ed["b"]));
            let (x, y) = (p.public_memory[&a], p.public_memory[&b]);
            p.public_memory.insert(a, y);
            p.public_memory.insert(b, x);
        }
        "segdel" => p.memory_segments.clear(),
        "segrc" => {
            p.memory_segments.insert(MemorySegment::RangeCheck, 100..104);
        }
        "segout" => {
            p.memory_segments.insert(MemorySegment::Output, 100..104);
        }
        f => panic!("pub edit {}", f),
    }
    p
}

/// One change of a byte string.
fn mutate(b: &[u8], m: &Value) -> Vec<u8> {
    let at = opt_u(m, "at", 0) as usize;
    let x = unhex(m["b"].as_str().unwrap_or(""));
    match s(m, "o") {
        "cut" => b[..at].to_vec(),
        "put" => [&b[..at], &x[..], &b[at + x.len()..]].concat(),
        "ins" => [&b[..at], &x[..], &b[at..]].concat(),
        "del" => [&b[..at], &b[at + us(m, "n")..]].concat(),
        "raw" => x,
        o => panic!("mutation {}", o),
    }
}

/// What verification says to serialized bytes, read as the command line reads them.
fn verify_bytes(pb: &[u8], ib: &[u8], o: &ProofOptions) -> String {
    let r = guard(|| {
        let Ok(p) = StarkProof::<S>::deserialize(pb) else { return "undecodable" };
        let Ok(i) = PublicInputs::deserialize(ib) else { return "undecodable" };
        if verify_cairo_proof(&p, &i, o) { "accept" } else { "reject" }
    });
    r.map(|x| x.to_string()).unwrap_or("panic".into())
}

fn wireverify(sc: &Value) -> Value {
    let (pb, ib, o) = (unhex(s(sc, "proof")), unhex(s(sc, "pubin")), any_opts(&sc["opts"]));
    json!({
        "proof": sc["proof"], "pubin": sc["pubin"], "muts": sc["muts"], "pmuts": sc["pmuts"],
        "own": verify_bytes(&pb, &ib, &o),
        "res": arr(sc, "muts").iter().map(|m| verify_bytes(&mutate(&pb, m), &ib, &o)).collect::<Vec<_>>(),
        "pres": arr(sc, "pmuts").iter().map(|m| verify_bytes(&pb, &mutate(&ib, m), &o)).collect::<Vec<_>>(),
    })
}

/// A proof in the form of the specification of the wire format.
fn wire_json(p: &StarkProof<S>) -> Value {
    let mut v = proof_json::<S>(p);
    v["T"] = json!(hx(p.trace_length as u64));
    v["nonce"] = json!(hx(p.nonce));
    // the frame's data is private; its encoding shows all of it
    let b = p.trace_ood_frame_evaluations.serialize();
    let n = u64::from_be_bytes(b[..8].try_into().unwrap()) as usize;
    v["fd"] = json!((0..n).map(|k| e(&FE::from_bytes_be(&b[16 + 32 * k..48 + 32 * k]).unwrap())).collect::<Vec<_>>());
    v["fw"] = json!(hx(p.trace_ood_frame_evaluations.num_columns() as u64));
    let o = v.as_object_mut().unwrap();
    o.remove("ood");
    o.remove("oodw");
    v
}

fn wire_parse(v: &Value) -> StarkProof<S> {
    use lambdaworks_crypto::merkle_tree::proof::Proof;
    use lambdaworks_stark::starks::fri::fri_decommit::FriDecommitment;
    use lambdaworks_stark::starks::proof::stark::DeepPolynomialOpenings;
    type Node = [u8; 32];
    let h = |x: &Value| -> Node { unhex(x.as_str().unwrap()).try_into().unwrap() };
    let hs = |x: &Value| -> Vec<Node> { x.as_array().unwrap().iter().map(h).collect() };
    let path = |x: &Value| -> Proof<Node> { Proof { merkle_path: hs(x) } };
    let paths = |x: &Value| -> Vec<Proof<Node>> { x.as_array().unwrap().iter().map(path).collect() };
    let fs = |x: &Value| -> Vec<FE> { x.as_array().unwrap().iter().map(d).collect() };
    StarkProof {
        trace_length: h64(&v["T"]) as usize,
        lde_trace_merkle_roots: hs(&v["roots"]),
        trace_ood_frame_evaluations: Frame::new(fs(&v["fd"]), h64(&v["fw"]) as usize),
        composition_poly_root: h(&v["croot"]),
        composition_poly_even_ood_evaluation: d(&v["h1"]),
        composition_poly_odd_ood_evaluation: d(&v["h2"]),
        fri_layers_merkle_roots: hs(&v["froots"]),
        fri_last_value: d(&v["last"]),
        query_list: arr(v, "q")
            .iter()
            .map(|q| FriDecommitment {
                layers_auth_paths_sym: paths(&q["ps"]),
                layers_evaluations_sym: fs(&q["es"]),
                layers_auth_paths: paths(&q["p"]),
                layers_evaluations: fs(&q["e"]),
            })
            .collect(),
        deep_poly_openings: arr(v, "o")
            .iter()
            .map(|o| DeepPolynomialOpenings {
                lde_composition_poly_proof: path(&o["cp"]),
                lde_composition_poly_even_evaluation: d(&o["ce"]),
                lde_composition_poly_odd_evaluation: d(&o["co"]),
                lde_trace_merkle_proofs: paths(&o["tp"]),
                lde_trace_evaluations: fs(&o["te"]),
            })
            .collect(),
        nonce: h64(&v["nonce"]),
    }
}

/// Values to bytes and back, and damaged bytes to values.
fn wire<T: Serializable + Deserializable>(sc: &Value, parse: fn(&Value) -> T, show: fn(&T) -> Value) -> Value {
    let enc = match guard(|| parse(&sc["val"]).serialize()) {
        Ok(b) => b,
        Err(m) => return json!({"encpanic": m, "enc": "", "dec": {"s": "none"}, "dec2": {"s": "none"}, "res": []}),
    };
    let dec = |b: &[u8]| -> Value {
        match guard(|| T::deserialize(b)) {
            Ok(Ok(p)) => match guard(|| show(&p)) {
                Ok(v) => json!({"s": "ok", "v": v}),
                Err(m) => json!({"s": "panic", "m": m}),
            },
            Ok(Err(_)) => json!({"s": "err"}),
            Err(m) => json!({"s": "panic", "m": m}),
        }
    };
    let b = unhex(s(sc, "bytes"));
    json!({
        "val": sc["val"], "bytes": sc["bytes"], "muts": sc["muts"],
        "enc": hex(&enc), "dec": dec(&enc), "dec2": dec(&b),
        "res": arr(sc, "muts").iter().map(|m| dec(&mutate(&b, m))).collect::<Vec<_>>(),
    })
}

// Values with very long lists, given by a rule: item j (from 0) of list k is 3j + k.
fn lump_proof(c: &Value) -> Value {
    let n: Vec<u64> = arr(c, "n").iter().map(|x| x.as_u64().unwrap()).collect();
    let nth = |k: u64, j: u64| hx(3 * j + k);
    let fs = |k: u64| (0..n[k as usize - 1]).map(|j| nth(k, j)).collect::<Vec<_>>();
    let h = |x: u64| format!("{x:064x}");
    let hs = |k: u64| (0..n[k as usize - 1]).map(|j| h(3 * j + k)).collect::<Vec<_>>();
    let no: Vec<Value> = vec![];
    let mut q = vec![json!({"ps": [hs(4)], "es": fs(5), "e": fs(6), "p": [hs(7)]})];
    q.extend((0..n[7]).map(|j| json!({"ps": no, "es": no, "e": [nth(8, j)], "p": no})));
    let mut o = vec![json!({"cp": hs(9), "ce": "14", "co": "15", "tp": vec![no.clone(); n[9] as usize], "te": fs(11)})];
    o.extend((0..n[11]).map(|j| json!({"cp": no, "ce": nth(12, j), "co": "16", "tp": no, "te": no})));
    json!({"T": "10", "roots": hs(1), "fd": fs(2), "fw": "1", "croot": h(0xc0), "h1": "11", "h2": "12", "froots": hs(3),
        "last": "13", "q": q, "o": o, "nonce": "17"})
}
fn lump_pub(c: &Value) -> Value {
    let n: Vec<u64> = arr(c, "n").iter().map(|x| x.as_u64().unwrap()).collect();
    json!({"pc_init": "1", "ap_init": "2", "fp_init": "3", "pc_final": "4", "ap_final": "5", "rcmin": ["6"], "rcmax": ["7"],
        "rc": ["8", "9"], "out": [], "pm": (0..n[0]).map(|j| json!([hx(3 * j + 1), hx(3 * j + 2)])).collect::<Vec<_>>(), "steps": hx(n[1])})
}
fn wire_lump<T: Serializable + Deserializable>(sc: &Value, v: Value, parse: fn(&Value) -> T, show: fn(&T) -> Value) -> Value {
    let enc = match guard(|| parse(&v).serialize()) {
        Ok(b) => b,
        Err(m) => return json!({"c": sc["c"], "enc": "", "dec": format!("panic {m}"), "cuts": []}),
    };
    let dec = match guard(|| T::deserialize(&enc).map(|x| show(&x) == show(&parse(&v)))) {
        Ok(Ok(true)) => "same",
        Ok(Ok(false)) => "other",
        Ok(Err(_)) => "err",
        Err(_) => "panic",
    };
    let cuts: Vec<&str> = arr(&sc["c"], "cuts")
        .iter()
        .map(|n| match guard(|| T::deserialize(&enc[..enc.len().saturating_sub(n.as_u64().unwrap() as usize)]).is_ok()) {
            Ok(true) => "ok",
            Ok(false) => "err",
            Err(_) => "panic",
        })
        .collect();
    json!({"c": sc["c"], "enc": hex(&enc), "dec": dec, "cuts": cuts})
}

/// A directory for the files of one job.
fn scratch(sc: &Value) -> std::path::PathBuf {
    let d = std::path::Path::new(&std::env::var("VERIF_SCRATCH").expect("VERIF_SCRATCH"))
        .join(format!("job-{}", sc["id"]));
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn regs_json(r: Result<RegisterStates, CairoImportError>) -> Value {
    match r {
        Ok(r) => json!({"steps": r.steps(),
            "rows": r.rows.iter().map(|x| json!([hx(x.pc), hx(x.ap), hx(x.fp)])).collect::<Vec<_>>()}),
        Err(x) => import_err(x),
    }
}
fn mem_json(r: Result<CairoMemory, CairoImportError>) -> Value {
    match r {
        Ok(m) => {
            let mut c: Vec<(&u64, &FE)> = m.data.iter().collect();
            c.sort_by_key(|x| *x.0);
            let probes: Vec<u64> = (0..8).chain(c.iter().map(|x| *x.0)).chain([u64::MAX]).collect();
            json!({"len": m.len(), "empty": m.is_empty(),
                "cells": c.iter().map(|(a, v)| json!([hx(**a), e(v)])).collect::<Vec<_>>(),
                "gets": probes.iter().map(|a| json!([hx(*a), m.get(a).map(|v| json!([e(v)])).unwrap_or(json!([]))])).collect::<Vec<_>>()})
        }
        Err(x) => import_err(x),
    }
}
fn import_err(x: CairoImportError) -> Value {
    json!({"err": match x {
        CairoImportError::IncorrectNumberOfBytes => "IncorrectNumberOfBytes",
        CairoImportError::FileError(_) => "FileError",
    }})
}

// A large file, its records given by a rule: register row j is (ap 3j+1, fp 7j+2, pc 5j+3), memory
// record j is (address j mod m, value 9j+4).  `cut` bytes are added (zeros) or taken off at the end.
fn bulk_bytes(c: &Value) -> Vec<u8> {
    let int = |x: &str| c[x].as_i64().unwrap();
    let mut b = Vec::new();
    if s(c, "src") == "vec" {
        let n = int("n") as usize;
        let mut w = VecWriter::new(&mut b);
        if s(c, "what") == "regs" {
            let row = |j| cairo_vm::vm::trace::trace_entry::TraceEntry { ap: 3 * j + 1, fp: 7 * j + 2, pc: 5 * j + 3 };
            w.write_encoded_trace(&(0..n).map(row).collect::<Vec<_>>());
        } else {
            w.write_encoded_memory(&(0..n).map(|j| Some(cairo_vm::felt::Felt252::from(9 * j + 4))).collect::<Vec<_>>());
        }
        w.flush().unwrap();
    } else {
    for j in 0..int("n") as u64 {
        if s(c, "what") == "regs" {
            for x in [3 * j + 1, 7 * j + 2, 5 * j + 3] {
                b.extend(x.to_le_bytes());
            }
        } else {
            b.extend((j % int("m") as u64).to_le_bytes());
            b.extend((9 * j + 4).to_le_bytes());
            b.extend([0u8; 24]);
        }
    }
    }
    b.resize((b.len() as i64 + int("cut")) as usize, 0);
    b
}
fn bulk_regs(c: &Value, r: Result<RegisterStates, CairoImportError>) -> Value {
    let r = match r {
        Ok(r) => r,
        Err(x) => return import_err(x),
    };
    let sum: u128 = r.rows.iter().map(|x| x.pc as u128 + x.ap as u128 + x.fp as u128).sum();
    json!({"steps": r.steps(), "sum": format!("{sum:x}"), "at": arr(c, "at").iter().map(|j|
        r.rows.get(j.as_u64().unwrap() as usize).map(|x| json!([hx(x.pc), hx(x.ap), hx(x.fp)])).unwrap_or(json!([]))).collect::<Vec<_>>()})
}
fn bulk_mem(c: &Value, r: Result<CairoMemory, CairoImportError>) -> Value {
    let m = match r {
        Ok(m) => m,
        Err(x) => return import_err(x),
    };
    json!({"len": m.len(), "at": arr(c, "at").iter().map(|a|
        m.get(&a.as_u64().unwrap()).map(|v| json!([e(v)])).unwrap_or(json!([]))).collect::<Vec<_>>()})
}
fn import_bulk(c: &Value, p: &std::path::Path) -> Value {
    let b = match guard(|| bulk_bytes(c)) {
        Ok(b) => b,
        Err(m) => return json!({ "panic": m }),
    };
    let path = p.to_str().unwrap();
    let _ = std::fs::remove_dir(p);
    std::fs::write(p, &b).unwrap();
    let bytes = s(c, "src") != "file";
    let r = guard(|| match (s(c, "what"), bytes) {
        ("regs", true) => bulk_regs(c, RegisterStates::from_bytes_le(&b)),
        ("regs", _) => bulk_regs(c, RegisterStates::from_file(path)),
        (_, true) => bulk_mem(c, CairoMemory::from_bytes_le(&b)),
        _ => bulk_mem(c, CairoMemory::from_file(path)),
    });
    r.unwrap_or_else(|m| json!({ "panic": m }))
}

fn import(c: &Value, dir: &std::path::Path) -> Value {
    if c.get("n").is_some() {
        return import_bulk(c, &dir.join("file"));
    }
    let b = unhex(s(c, "b"));
    let p = dir.join("file");
    let path = p.to_str().unwrap();
    let _ = std::fs::remove_file(&p);
    let _ = std::fs::remove_dir(&p);
    match s(c, "src") {
        "file" => std::fs::write(&p, &b).unwrap(),
        "dir" => std::fs::create_dir(&p).unwrap(),
        _ => {}
    }
    let bytes = s(c, "src") == "bytes";
    let r = guard(|| match (s(c, "what"), bytes) {
        ("regs", true) => regs_json(RegisterStates::from_bytes_le(&b)),
        ("regs", _) => regs_json(RegisterStates::from_file(path)),
        (_, true) => mem_json(CairoMemory::from_bytes_le(&b)),
        _ => mem_json(CairoMemory::from_file(path)),
    });
    r.unwrap_or_else(|m| json!({ "panic": m }))
}
fn imports(sc: &Value) -> Value {
    let dir = scratch(sc);
    let res: Vec<Value> = arr(sc, "cases").iter().map(|c| import(c, &dir)).collect();
    let _ = std::fs::remove_dir_all(&dir);
    json!({"k": "imports", "cases": sc["cases"], "res": res})
}

fn decoded(f: &CairoInstructionFlags, o: &InstructionOffsets) -> Value {
    let b: [FE; 3] = o.to_trace_representation();
    let small = |x: &FE| -> Value {
        match u64::from_str_radix(e(x).as_str().unwrap(), 16) {
            Ok(n) if n < 1 << 30 => json!(n),
            _ => json!(-1),
        }
    };
    json!({
        "ok": 1,
        "flags": f.to_trace_representation().iter().map(small).collect::<Vec<_>>(),
        "offs": b.iter().map(small).collect::<Vec<_>>(),
        "soffs": [o.off_dst, o.off_op0, o.off_op1],
    })
}
fn lookups(sc: &Value) -> Value {
    let one = |c: &Value| match guard(|| regs(c).flags_and_offsets(&mem(c))) {
        Ok(Ok(v)) => json!({"ok": 1, "items": v.iter().map(|(f, o)| decoded(f, o)).collect::<Vec<_>>()}),
        Ok(Err(x)) => json!({"ok": 0, "err": format!("{:?}", x)}),
        Err(m) => json!({"ok": 2, "err": m}),
    };
    json!({"k": "lookups", "cases": sc["cases"], "res": arr(sc, "cases").iter().map(one).collect::<Vec<_>>()})
}

/// The operations of a writer session; stops at the first that is refused.
fn writer(sc: &Value) -> Value {
    use bincode::enc::write::Writer;
    let refused = |op: usize, x: bincode::error::EncodeError| match x {
        bincode::error::EncodeError::Io { index, .. } => json!({"err": "Io", "op": op, "index": index}),
        x => json!({"err": format!("{:?}", x), "op": op, "index": -1}),
    };
    let felt = |v: &Value| cairo_vm::felt::Felt252::from_bytes_be(&d(v).to_bytes_be());
    let mut done = |content: &[u8]| {
        json!({"content": hex(content), "regs": regs_json(RegisterStates::from_bytes_le(content)),
            "mem": mem_json(CairoMemory::from_bytes_le(content))})
    };
    let out = if s(sc, "to") == "vec" {
        let mut v = unhex(s(sc, "pre"));
        let mut bad = None;
        {
            let mut w = VecWriter::new(&mut v);
            for (k, op) in arr(sc, "ops").iter().enumerate() {
                match s(op, "o") {
                    "trace" => {
                        let rows: Vec<_> = arr(op, "rows")
                            .iter()
                            .map(|r| cairo_vm::vm::trace::trace_entry::TraceEntry {
                                pc: h64(&r[0]) as usize,
                                ap: h64(&r[1]) as usize,
                                fp: h64(&r[2]) as usize,
                            })
                            .collect();
                        w.write_encoded_trace(&rows)
                    }
                    "mem" => {
                        let cells: Vec<_> =
                            arr(op, "cells").iter().map(|c| c.as_array().unwrap().first().map(felt)).collect();
                        w.write_encoded_memory(&cells)
                    }
                    "chunk" => {
                        if let Err(x) = w.write(&unhex(s(op, "b"))) {
                            bad = Some(refused(k, x));
                            break;
                        }
                    }
                    _ => w.flush().unwrap(),
                }
            }
        }
        bad.unwrap_or_else(|| done(&v))
    } else {
        let dir = scratch(sc);
        let p = dir.join("out");
        std::fs::write(&p, b"").unwrap();
        let f = std::fs::OpenOptions::new().read(true).write(s(sc, "to") == "file").open(&p).unwrap();
        let mut w = FileWriter::new(std::io::BufWriter::with_capacity(us(sc, "cap"), f));
        let mut bad = None;
        for (k, op) in arr(sc, "ops").iter().enumerate() {
            let r = if s(op, "o") == "flush" {
                w.flush().map_err(|_| json!({"err": "Io", "op": k, "index": -1}))
            } else {
                w.write(&unhex(s(op, "b"))).map_err(|x| refused(k, x))
            };
            if let Err(x) = r {
                bad = Some(x);
                break;
            }
        }
        // read while the writer is still open: a flush is enough
        let out = bad.unwrap_or_else(|| done(&std::fs::read(&p).unwrap()));
        drop(w);
        let _ = std::fs::remove_dir_all(&dir);
        out
    };
    json!({"k": "writer", "to": sc["to"], "cap": sc["cap"], "pre": sc["pre"], "ops": sc["ops"], "out": out})
}

/// run_program and generate_prover_args on a JSON program.
fn layout(l: &str) -> CairoLayout {
    match l {
        "plain" => CairoLayout::Plain,
        "small" => CairoLayout::Small,
        "dex" => CairoLayout::Dex,
        "recursive" => CairoLayout::Recursive,
        "starknet" => CairoLayout::Starknet,
        "starknet_with_keccak" => CairoLayout::StarknetWithKeccak,
        "recursive_large_output" => CairoLayout::RecursiveLargeOutput,
        "all_cairo" => CairoLayout::AllCairo,
        "all_solidity" => CairoLayout::AllSolidity,
        "dynamic" => CairoLayout::Dynamic,
        l => panic!("layout {}", l),
    }
}
fn asked() -> String {
    cairo_vm::probe::LAYOUT.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
fn program(sc: &Value) -> Value {
    let txt = s(sc, "text").as_bytes();
    let version = || if us(sc, "v") == 0 { CairoVersion::V0 } else { CairoVersion::V1 };
    let mut runs = vec![];
    for c in arr(sc, "calls") {
        let entry = c["entry"].as_array().and_then(|e| e.first()).map(|e| e.as_str().unwrap());
        asked();
        let mut o = match guard(|| run_program(entry, layout(s(c, "layout")), txt, &version())) {
            Ok(Ok((r, m, size, rc))) => {
                let mut v = mem_json(Ok(m));
                v["regs"] = regs_json(Ok(r))["rows"].clone();
                v["size"] = json!(size);
                v["rc"] = rc.map(|r| json!([hx(r.start), hx(r.end)])).unwrap_or(json!([]));
                v["s"] = json!("ok");
                v
            }
            Ok(Err(x)) => json!({"s": "err", "e": format!("{:?}", x).split(['(', ' ', '{']).next()}),
            Err(m) => json!({"s": "panic", "m": m}),
        };
        o["asked"] = json!(asked());
        runs.push(o);
    }
    let mut args = vec![];
    for c in arr(sc, "argcalls") {
        let rng = c["out"].as_array().filter(|r| r.len() == 2).map(|r| h64(&r[0])..h64(&r[1]));
        asked();
        let mut o = match guard(|| generate_prover_args(txt, &version(), &rng)) {
            Ok(Ok((t, p))) => json!({"s": "ok", "main": rows_json(&t), "pub": pub_json(&p)}),
            Ok(Err(x)) => json!({"s": "err", "e": format!("{:?}", x).split(['(', ' ', '{']).next()}),
            Err(m) => json!({"s": "panic", "m": m}),
        };
        o["asked"] = json!(asked());
        args.push(o);
    }
    json!({"runs": runs, "args": args, "calls": sc["calls"], "want": sc["want"]})
}

#[allow(dead_code)]
fn _unused(_: HashMap<u8, u8>) {}
