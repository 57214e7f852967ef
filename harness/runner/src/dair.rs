//! An AIR described by data (the TLA+ side writes the description), so that the
//! generic prover/verifier can be driven with shapes the examples do not have.
use crate::common::*;
use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::starks::{
    constraints::boundary::{BoundaryConstraint, BoundaryConstraints},
    context::AirContext,
    frame::Frame,
    proof::options::ProofOptions,
    trace::TraceTable,
    traits::AIR,
    transcript::transcript_to_field,
};
use serde_json::Value;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub enum Fac {
    Cell(usize, usize),
    Ch(usize),
}
#[derive(Clone, Debug)]
pub struct Con {
    pub deg: usize,
    pub ex: usize,
    pub terms: Vec<(i64, Vec<Fac>)>,
}
#[derive(Clone, Debug)]
pub struct Desc {
    pub cols: usize,
    pub aux: usize,
    pub nch: usize,
    pub offs: Vec<usize>,
    pub cons: Vec<Con>,
    pub bound: Vec<(usize, usize, Value)>,
    pub dbound: usize,
    pub nex: usize,
}

impl Desc {
    pub fn parse(v: &Value) -> Self {
        let cons = arr(v, "cons")
            .iter()
            .map(|c| Con {
                deg: us(c, "deg"),
                ex: us(c, "ex"),
                terms: arr(c, "terms")
                    .iter()
                    .map(|t| {
                        (
                            t["c"].as_i64().unwrap(),
                            arr(t, "f")
                                .iter()
                                .map(|f| {
                                    if us(f, "ch") > 0 {
                                        Fac::Ch(us(f, "ch") - 1)
                                    } else {
                                        Fac::Cell(us(f, "r"), us(f, "col"))
                                    }
                                })
                                .collect(),
                        )
                    })
                    .collect(),
            })
            .collect();
        Desc {
            cols: us(v, "cols"),
            aux: us(v, "aux"),
            nch: us(v, "nch"),
            offs: arr(v, "offs").iter().map(|x| x.as_u64().unwrap() as usize).collect(),
            cons,
            bound: arr(v, "bound")
                .iter()
                .map(|b| (us(b, "col"), us(b, "step"), b["val"].clone()))
                .collect(),
            dbound: us(v, "dbound"),
            nex: us(v, "nex"),
        }
    }
    pub fn eval<F: HField>(&self, rows: &[Vec<Fe<F>>], ch: &[Fe<F>]) -> Vec<Fe<F>> {
        self.cons
            .iter()
            .map(|c| {
                c.terms.iter().fold(Fe::<F>::zero(), |acc, (k, fs)| {
                    let k = F::dec(&serde_json::json!(k));
                    acc + fs.iter().fold(k, |p, f| match f {
                        Fac::Cell(r, col) => p * &rows[*r][*col],
                        Fac::Ch(i) => p * &ch[*i],
                    })
                })
            })
            .collect()
    }
    /// The auxiliary column of a randomized AIR: the running product
    /// z_0 = 1, z_{i+1} = z_i (a_i + ch) / (b_i + ch) over main columns 0 and 1.
    pub fn aux_cols<F: HField>(&self, main: &[Vec<Fe<F>>], ch: &[Fe<F>]) -> Vec<Vec<Fe<F>>> {
        (0..self.aux)
            .map(|k| {
                let n = main[0].len();
                let mut z = vec![Fe::<F>::one()];
                for i in 1..n {
                    let num = &main[0][i - 1] + &ch[k];
                    let den = &main[1][i - 1] + &ch[k];
                    let v = &z[i - 1] * num * den.inv();
                    z.push(v);
                }
                z
            })
            .collect()
    }
}

#[derive(Clone)]
pub struct DataAir<F: HField> {
    ctx: AirContext,
    t: usize,
    d: Arc<Desc>,
    _f: std::marker::PhantomData<F>,
}

impl<F: HField> AIR for DataAir<F>
where
    Fe<F>: ByteConversion,
{
    type Field = F;
    type RAPChallenges = Vec<Fe<F>>;
    type PublicInputs = Arc<Desc>;

    fn new(trace_length: usize, d: &Arc<Desc>, o: &ProofOptions) -> Self {
        DataAir {
            ctx: AirContext {
                proof_options: o.clone(),
                trace_columns: d.cols,
                transition_degrees: d.cons.iter().map(|c| c.deg).collect(),
                transition_offsets: d.offs.clone(),
                transition_exemptions: d.cons.iter().map(|c| c.ex).collect(),
                num_transition_constraints: d.cons.len(),
                num_transition_exemptions: d.nex,
            },
            t: trace_length,
            d: d.clone(),
            _f: Default::default(),
        }
    }
    fn build_auxiliary_trace(&self, main: &TraceTable<F>, ch: &Vec<Fe<F>>) -> TraceTable<F> {
        if self.d.aux == 0 {
            return TraceTable::empty();
        }
        TraceTable::new_from_cols(&self.d.aux_cols::<F>(&main.cols(), ch))
    }
    fn build_rap_challenges<T: Transcript>(&self, t: &mut T) -> Vec<Fe<F>> {
        (0..self.d.nch).map(|_| transcript_to_field(t)).collect()
    }
    fn number_auxiliary_rap_columns(&self) -> usize {
        self.d.aux
    }
    fn composition_poly_degree_bound(&self) -> usize {
        self.d.dbound * self.t
    }
    fn compute_transition(&self, frame: &Frame<F>, ch: &Vec<Fe<F>>) -> Vec<Fe<F>> {
        let rows: Vec<Vec<Fe<F>>> = (0..self.d.offs.len())
            .map(|r| frame.get_row(r).to_vec())
            .collect();
        self.d.eval::<F>(&rows, ch)
    }
    fn boundary_constraints(&self, _c: &Vec<Fe<F>>) -> BoundaryConstraints<F> {
        BoundaryConstraints::from_constraints(
            self.d
                .bound
                .iter()
                .map(|(c, s, v)| BoundaryConstraint::new(*c, *s, F::dec(v)))
                .collect(),
        )
    }
    fn context(&self) -> &AirContext {
        &self.ctx
    }
    fn trace_length(&self) -> usize {
        self.t
    }
    fn pub_inputs(&self) -> &Arc<Desc> {
        &self.d
    }
}
