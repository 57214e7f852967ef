//! An independent prover for data-described AIRs, written from the protocol and
//! able to deviate from it at any message (the adversary of StarkProtocol.tla).
use crate::common::*;
use crate::dair::Desc;
use lambdaworks_crypto::fiat_shamir::{default_transcript::DefaultTranscript, transcript::Transcript};
use lambdaworks_crypto::merkle_tree::proof::Proof;
use lambdaworks_math::fft::polynomial::FFTPoly;
use lambdaworks_math::polynomial::Polynomial;
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::starks::frame::Frame;
use lambdaworks_stark::starks::fri::fri_decommit::FriDecommitment;
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::proof::stark::{DeepPolynomialOpenings, StarkProof};
use serde_json::Value;
use sha3::{Digest, Keccak256};

pub type Node = [u8; 32];

pub fn keccak(parts: &[&[u8]]) -> Node {
    let mut h = Keccak256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

/// Independent transcript: same hash chain, but records per challenge what was
/// absorbed since the previous one.
pub struct Tr {
    t: DefaultTranscript,
    pub pend: Vec<u8>,
    pub abs: Vec<String>,
    pub chs: Vec<Node>,
}
impl Tr {
    pub fn new() -> Self {
        Tr {
            t: DefaultTranscript::new(),
            pend: vec![],
            abs: vec![],
            chs: vec![],
        }
    }
    pub fn app(&mut self, b: &[u8]) {
        self.t.append(b);
        self.pend.extend_from_slice(b);
    }
    pub fn ch(&mut self) -> Node {
        let c = self.t.challenge();
        self.abs.push(hex(&self.pend));
        self.pend.clear();
        self.chs.push(c);
        c
    }
    pub fn fe<F: HField>(&mut self) -> Fe<F>
    where
        Fe<F>: ByteConversion,
    {
        let mut c = self.ch();
        let keep = F::field_bit_size() - 1;
        for i in 0..256 {
            if 256 - i > keep {
                c[i / 8] &= !(0x80u8 >> (i % 8));
            }
        }
        Fe::<F>::from_bytes_be(&c).unwrap()
    }
    pub fn idx(&mut self, n: usize) -> usize {
        let c = self.ch();
        (u64::from_be_bytes(c[..8].try_into().unwrap()) % n as u64) as usize
    }
}

pub struct Tree {
    pub nodes: Vec<Node>,
    pub n: usize,
}
impl Tree {
    pub fn new(leaves: Vec<Node>) -> Self {
        let n = leaves.len();
        let mut nodes = vec![[0u8; 32]; n - 1];
        nodes.extend(leaves);
        for i in (0..n - 1).rev() {
            nodes[i] = keccak(&[&nodes[2 * i + 1], &nodes[2 * i + 2]]);
        }
        Tree { nodes, n }
    }
    pub fn root(&self) -> Node {
        self.nodes[0]
    }
    pub fn path(&self, i: usize) -> Proof<Node> {
        let mut p = i + self.n - 1;
        let mut out = vec![];
        while p > 0 {
            let sib = if p % 2 == 1 { p + 1 } else { p - 1 };
            out.push(self.nodes[sib]);
            p = (p - 1) / 2;
        }
        Proof { merkle_path: out }
    }
}

pub fn leaf<F: HField>(vals: &[Fe<F>]) -> Node {
    let mut v = vec![];
    for x in vals {
        v.extend(F::bytes(x));
    }
    keccak(&[&v])
}

pub fn opts(v: &Value) -> ProofOptions {
    ProofOptions {
        blowup_factor: u(v, "blowup") as u8,
        fri_number_of_queries: us(v, "nq"),
        coset_offset: u64::from_str_radix(s(v, "off"), 16).expect("u64 hex"),
        grinding_factor: u(v, "grind") as u8,
    }
}

pub fn grind_bits(ch: &Node, nonce: u64) -> u32 {
    let d = keccak(&[ch, &nonce.to_le_bytes()]);
    u64::from_be_bytes(d[..8].try_into().unwrap()).trailing_zeros()
}

/// What the prover may do differently. Everything "honest" gives an honest proof.
#[derive(Clone, Debug)]
pub struct Dev {
    pub h: String,     // honest | low
    pub ood: String,   // honest | h1 | h2 | trace
    pub sw: i64,       // FRI layer at which an unrelated low-degree word is substituted, -1 none
    pub cover: String, // none | main | aux | even | odd | sym
    pub tree: String,  // none | main | aux | comp | fripoint | frisym : commit to garbage there
    pub tlay: usize,
    pub nonce: String, // ok | bad
    pub iota: String,  // ok | own : open positions of the prover's own choosing
    pub layers: i64,   // number of FRI layers to run, -1: the right number
    pub nq: i64,       // number of queries answered, -1: as required
    pub spot: Option<Spot>,
    pub pad: Option<Pad>,
}
/// Lists of the openings that are cut to `k` entries, for one query or for all; "more" appends
/// the fold of the last layer to the evaluations instead.
#[derive(Clone, Debug)]
pub struct Pad {
    pub w: Vec<String>, // fp | fps | fes | fe | tp | roots | more
    pub k: usize,
    pub q: i64,
}
impl Pad {
    fn cuts<T>(&self, w: &str, l: &mut Vec<T>) {
        if self.w.iter().any(|x| x == w) {
            l.truncate(self.k);
        }
    }
}
/// One committed position altered, and a nonce searched for that makes exactly
/// query `q` look at it.
#[derive(Clone, Debug)]
pub struct Spot {
    pub what: String, // leaf: the commitment differs from the value opened; word: the value itself is wrong
    pub at: String,   // main | aux | even | odd | fri
    pub lay: usize,   // FRI layer
    pub sym: bool,    // looked at as the symmetric position
    pub q: usize,
}
impl Dev {
    pub fn parse(v: &Value) -> Self {
        let g = |k: &str, d: &str| v[k].as_str().unwrap_or(d).to_string();
        Dev {
            h: g("h", "honest"),
            ood: g("ood", "honest"),
            sw: v["sw"].as_i64().unwrap_or(-1),
            cover: g("cover", "none"),
            tree: g("tree", "none"),
            tlay: v["tlay"].as_u64().unwrap_or(0) as usize,
            nonce: g("nonce", "ok"),
            iota: g("iota", "ok"),
            layers: v["layers"].as_i64().unwrap_or(-1),
            nq: v["nq"].as_i64().unwrap_or(-1),
            spot: v["spot"].as_object().map(|_| {
                let x = &v["spot"];
                Spot {
                    what: s(x, "what").into(),
                    at: s(x, "at").into(),
                    lay: us(x, "lay"),
                    sym: x["sym"].as_bool().unwrap(),
                    q: us(x, "q"),
                }
            }),
            pad: v["pad"].as_object().map(|_| {
                let x = &v["pad"];
                Pad {
                    w: arr(x, "w").iter().map(|y| y.as_str().unwrap().to_string()).collect(),
                    k: us(x, "k"),
                    q: x["q"].as_i64().unwrap(),
                }
            }),
        }
    }
}

pub struct Coefs<F: HField> {
    pub ab: Vec<(Fe<F>, Fe<F>)>,
    pub at: Vec<(Fe<F>, Fe<F>)>,
}

/// The composition quotient at x, from the rows of the frame at x.
pub fn comp_at<F: HField>(
    d: &Desc,
    t: usize,
    g: &Fe<F>,
    x: &Fe<F>,
    rows: &[Vec<Fe<F>>],
    ch: &[Fe<F>],
    c: &Coefs<F>,
) -> Fe<F> {
    let bound = d.dbound * t;
    let mut acc = Fe::<F>::zero();
    for ((col, step, val), (a, b)) in d.bound.iter().zip(&c.ab) {
        let num = &rows[0][*col] - F::dec(val);
        let den = x - g.pow(*step as u64);
        acc = acc + num * den.inv() * (a * x.pow((bound - t) as u64) + b);
    }
    let zinv = (x.pow(t as u64) - Fe::<F>::one()).inv();
    for ((v, con), (a, b)) in d.eval::<F>(rows, ch).iter().zip(&d.cons).zip(&c.at) {
        let mut e = Fe::<F>::one();
        for k in 1..=con.ex {
            e = e * (x - g.pow((t - k) as u64));
        }
        let adj = bound - t * (con.deg - 1);
        acc = acc + v * e * &zinv * (a * x.pow(adj as u64) + b);
    }
    acc
}

fn pw<F: HField>(base: &Fe<F>, n: usize, first: &Fe<F>) -> Vec<Fe<F>> {
    let mut v = Vec::with_capacity(n);
    let mut c = first.clone();
    for _ in 0..n {
        v.push(c.clone());
        c = &c * base;
    }
    v
}

pub fn root_of<F: HField>(n: usize) -> Fe<F> {
    F::get_primitive_root_of_unity(n.trailing_zeros() as u64).unwrap()
}

pub struct Forged<F: HField> {
    pub proof: StarkProof<F>,
}

pub fn forge<F: HField>(
    d: &Desc,
    main: &[Vec<Fe<F>>],
    o: &ProofOptions,
    dev: &Dev,
    rng: &mut Rng,
) -> Result<Forged<F>, String>
where
    Fe<F>: ByteConversion,
{
    let t = main[0].len();
    let blow = o.blowup_factor as usize;
    let n = t * blow;
    let off = Fe::<F>::from(o.coset_offset);
    let g = root_of::<F>(t);
    let w = root_of::<F>(n);
    let xs = pw::<F>(&w, n, &off);
    let mut tr = Tr::new();

    let lde = |col: &Vec<Fe<F>>| -> Vec<Fe<F>> {
        let p = Polynomial::interpolate_fft(col).unwrap();
        p.evaluate_offset_fft(blow, Some(t), &off).unwrap()
    };
    // the altered position (fixed before anything is committed)
    let spot_n = match &dev.spot {
        Some(sp) if sp.at == "fri" => n >> sp.lay,
        _ => n,
    };
    let spot_pos = rng.below(spot_n as u64) as usize;
    let is_spot = |what: &str, at: &str| -> bool {
        dev.spot.as_ref().map_or(false, |sp| sp.what == what && sp.at == at)
    };
    let spot_d = rng.nz::<F>();
    let commit_rows = |cols: &[Vec<Fe<F>>], bad: bool, spot: bool, rng: &mut Rng| -> Tree {
        Tree::new(
            (0..n)
                .map(|i| {
                    let mut row: Vec<Fe<F>> = cols.iter().map(|c| c[i].clone()).collect();
                    if bad || (spot && i == spot_pos) {
                        row[0] = &row[0] + rng.nz::<F>();
                    }
                    leaf::<F>(&row)
                })
                .collect(),
        )
    };

    // Round 1
    let mut cols: Vec<Vec<Fe<F>>> = main.to_vec();
    let mut l: Vec<Vec<Fe<F>>> = main.iter().map(lde).collect();
    // values opened (and, when "word", committed) instead of the true ones
    let altered = |cols: &[Vec<Fe<F>>], at: &str, c: usize| -> Vec<Vec<Fe<F>>> {
        let mut v = cols.to_vec();
        if is_spot("word", at) {
            v[c][spot_pos] = &v[c][spot_pos] + &spot_d;
        }
        v
    };
    let mut shown = altered(&l, "main", 0);
    let mtree = commit_rows(&shown, dev.tree == "main", is_spot("leaf", "main"), rng);
    tr.app(&mtree.root());
    let ch: Vec<Fe<F>> = (0..d.nch).map(|_| tr.fe::<F>()).collect();
    let mut trees = vec![mtree];
    if d.aux > 0 {
        let aux = d.aux_cols::<F>(main, &ch);
        let la: Vec<Vec<Fe<F>>> = aux.iter().map(lde).collect();
        let sa = altered(&la, "aux", 0);
        let at = commit_rows(&sa, dev.tree == "aux", is_spot("leaf", "aux"), rng);
        shown.extend(sa);
        tr.app(&at.root());
        trees.push(at);
        cols.extend(aux);
        l.extend(la);
    }
    let ncols = cols.len();

    // Round 2
    let nb = d.bound.len();
    let nt = d.cons.len();
    let mut take = |k: usize| -> Vec<Fe<F>> { (0..k).map(|_| tr.fe::<F>()).collect() };
    let ba = take(nb);
    let bb = take(nb);
    let ta = take(nt);
    let tb = take(nt);
    let coefs = Coefs::<F> {
        ab: ba.into_iter().zip(bb).collect(),
        at: ta.into_iter().zip(tb).collect(),
    };
    let h_poly: Polynomial<Fe<F>> = if dev.h == "low" {
        let c: Vec<Fe<F>> = (0..d.dbound * t).map(|_| rng.fe::<F>()).collect();
        Polynomial::new(&c)
    } else {
        let ev: Vec<Fe<F>> = (0..n)
            .map(|i| {
                let rows: Vec<Vec<Fe<F>>> = d
                    .offs
                    .iter()
                    .map(|k| l.iter().map(|c| c[(i + k * blow) % n].clone()).collect())
                    .collect();
                comp_at::<F>(d, t, &g, &xs[i], &rows, &ch, &coefs)
            })
            .collect();
        Polynomial::interpolate_offset_fft(&ev, &off).unwrap()
    };
    let hc = h_poly.coefficients().to_vec();
    let he = Polynomial::new(&hc.iter().step_by(2).cloned().collect::<Vec<_>>());
    let ho = Polynomial::new(&hc.iter().skip(1).step_by(2).cloned().collect::<Vec<_>>());
    let ev_on = |p: &Polynomial<Fe<F>>| -> Vec<Fe<F>> { xs.iter().map(|x| p.evaluate(x)).collect() };
    let le = ev_on(&he);
    let lo = ev_on(&ho);
    let sc = altered(&altered(&[le.clone(), lo.clone()], "even", 0), "odd", 1);
    let ctree = commit_rows(&sc, dev.tree == "comp", is_spot("leaf", "even"), rng);
    tr.app(&ctree.root());

    // Round 3
    let z = loop {
        let c = tr.fe::<F>();
        let tz = c.pow(t as u64);
        let nz = (&c * off.inv()).pow(n as u64);
        if tz != Fe::<F>::one() && nz != Fe::<F>::one() {
            break c;
        }
    };
    let z2 = &z * &z;
    let polys: Vec<Polynomial<Fe<F>>> = cols
        .iter()
        .map(|c| Polynomial::interpolate_fft(c).unwrap())
        .collect();
    let zk: Vec<Fe<F>> = d.offs.iter().map(|k| &z * g.pow(*k as u64)).collect();
    let mut ood: Vec<Vec<Fe<F>>> = zk
        .iter()
        .map(|p| polys.iter().map(|q| q.evaluate(p)).collect())
        .collect();
    let mut h1 = he.evaluate(&z2);
    let mut h2 = ho.evaluate(&z2);
    match dev.ood.as_str() {
        "h1" => h1 = comp_at::<F>(d, t, &g, &z, &ood, &ch, &coefs) - &z * &h2,
        "h2" => h2 = (comp_at::<F>(d, t, &g, &z, &ood, &ch, &coefs) - &h1) * z.inv(),
        "trace" => {
            // Solve the (affine in this cell) consistency equation for a last-row cell that
            // appears linearly in constraint 0.
            let (r, c) = d.cons[0]
                .terms
                .iter()
                .find_map(|(_, f)| match f.as_slice() {
                    [crate::dair::Fac::Cell(r, c)] => Some((*r, *c)),
                    _ => None,
                })
                .ok_or("no linear cell")?;
            let target = &h1 + &z * &h2;
            let at = |v: &Fe<F>, ood: &mut Vec<Vec<Fe<F>>>| {
                ood[r][c] = v.clone();
                comp_at::<F>(d, t, &g, &z, ood, &ch, &coefs)
            };
            let f0 = at(&Fe::<F>::zero(), &mut ood);
            let f1 = at(&Fe::<F>::one(), &mut ood);
            let f2 = at(&Fe::<F>::from(2u64), &mut ood);
            let sl = &f1 - &f0;
            if &f2 - &f1 != sl || sl == Fe::<F>::zero() {
                return Err("cell not affine".into());
            }
            let v = (target - &f0) * sl.inv();
            at(&v, &mut ood);
        }
        _ => {}
    }
    tr.app(&F::bytes(&h1));
    tr.app(&F::bytes(&h2));
    for row in &ood {
        for e in row {
            tr.app(&F::bytes(e));
        }
    }

    // Round 4
    let ge = tr.fe::<F>();
    let go = tr.fe::<F>();
    let gam: Vec<Fe<F>> = (0..ncols * d.offs.len()).map(|_| tr.fe::<F>()).collect();
    let deep_at = |i: usize, te: &dyn Fn(usize) -> Fe<F>, e: &Fe<F>, od: &Fe<F>| -> Fe<F> {
        let x = &xs[i];
        let di = (x - &z2).inv();
        let mut acc = (e - &h1) * &di * &ge + (od - &h2) * &di * &go;
        for (k, p) in zk.iter().enumerate() {
            let iv = (x - p).inv();
            for j in 0..ncols {
                acc = acc + (te(j) - &ood[k][j]) * &iv * &gam[j * d.offs.len() + k];
            }
        }
        acc
    };
    let deep: Vec<Fe<F>> = (0..n)
        .map(|i| deep_at(i, &|j| l[j][i].clone(), &le[i], &lo[i]))
        .collect();

    let right = std::cmp::max(1, t.trailing_zeros() as usize);
    let nl = if dev.layers >= 0 { dev.layers as usize } else { right };
    let half = Fe::<F>::from(2u64).inv();
    let mut words: Vec<Vec<Fe<F>>> = vec![];
    let mut doms: Vec<Vec<Fe<F>>> = vec![];
    let mut ftrees: Vec<Tree> = vec![];
    let mut zetas: Vec<Fe<F>> = vec![];
    let mut cur = deep.clone();
    let mut dom = xs.clone();
    let random_word = |k: usize, dom: &[Fe<F>], rng: &mut Rng| -> Vec<Fe<F>> {
        let deg = std::cmp::max(1, t >> k);
        let c: Vec<Fe<F>> = (0..deg).map(|_| rng.fe::<F>()).collect();
        let p = Polynomial::new(&c);
        dom.iter().map(|x| p.evaluate(x)).collect()
    };
    for k in 0..nl {
        if dev.sw == k as i64 {
            cur = random_word(k, &dom, rng);
        }
        let len = cur.len();
        let here = dev.spot.as_ref().map_or(false, |sp| sp.at == "fri" && sp.lay == k);
        let mut word = cur.clone();
        if here && is_spot("word", "fri") {
            word[spot_pos] = &word[spot_pos] + &spot_d;
        }
        let tree = Tree::new(
            (0..len)
                .map(|i| {
                    let bad = here && i == spot_pos && is_spot("leaf", "fri") || dev.tlay == k
                        && ((dev.tree == "fripoint" && i < len / 2)
                            || (dev.tree == "frisym" && i >= len / 2));
                    if bad {
                        leaf::<F>(&[&word[i] + rng.nz::<F>()])
                    } else {
                        leaf::<F>(&[word[i].clone()])
                    }
                })
                .collect(),
        );
        tr.app(&tree.root());
        let ze = tr.fe::<F>();
        words.push(word);
        doms.push(dom.clone());
        ftrees.push(tree);
        let m = len / 2;
        let nxt: Vec<Fe<F>> = (0..m)
            .map(|i| {
                (&cur[i] + &cur[i + m]) * &half
                    + &ze * (&cur[i] - &cur[i + m]) * &half * dom[i].inv()
            })
            .collect();
        dom = dom[..m].iter().map(|x| x * x).collect();
        cur = nxt;
        zetas.push(ze);
    }
    let last = if dev.sw == nl as i64 {
        rng.fe::<F>()
    } else {
        cur[0].clone()
    };
    tr.app(&F::bytes(&last));

    // Grinding
    let gch = tr.ch();
    let mut nonce = 0u64;
    let snap_abs = (tr.abs.clone(), tr.chs.clone());
    let nqa = if dev.nq >= 0 { dev.nq as usize } else { o.fri_number_of_queries };
    let iotas: Vec<usize> = loop {
        let bits = grind_bits(&gch, nonce);
        let ok = if dev.nonce == "bad" {
            bits < o.grinding_factor as u32
        } else {
            bits >= o.grinding_factor as u32
        };
        if ok {
            // the indices this nonce leads to
            let mut t2 = Tr::new();
            t2.abs = snap_abs.0.clone();
            t2.chs = snap_abs.1.clone();
            // replay: the transcript state after a challenge is that challenge absorbed
            t2.t.append(&gch);
            t2.app(&nonce.to_be_bytes());
            let io: Vec<usize> = (0..o.fri_number_of_queries).map(|_| t2.idx(n)).collect();
            let spot_ok = dev.spot.as_ref().map_or(true, |sp| {
                io.iter().enumerate().all(|(j, i)| {
                    let (pt, sy) = if sp.at == "fri" {
                        (i % spot_n == spot_pos, (i + spot_n / 2) % spot_n == spot_pos)
                    } else {
                        (*i == spot_pos, false)
                    };
                    if j == sp.q {
                        if sp.sym { sy } else { pt }
                    } else {
                        !pt && !sy
                    }
                })
            });
            let fits = spot_ok && match dev.tree.as_str() {
                "fripoint" | "frisym" => io.iter().all(|i| {
                    let m = n >> dev.tlay;
                    i % m < m / 2
                }),
                _ => true,
            };
            if fits {
                break io;
            }
        }
        nonce += 1;
        if nonce > 1 << 22 {
            return Err("no suitable nonce".into());
        }
    };
    let open_at: Vec<usize> = if dev.iota == "own" {
        iotas.iter().map(|i| (i + 1) % n).collect()
    } else {
        iotas.clone()
    };

    let mut queries = vec![];
    let mut openings = vec![];
    for (qn, &io) in open_at.iter().take(nqa).enumerate() {
        let mut fd = FriDecommitment::<F> {
            layers_auth_paths_sym: vec![],
            layers_evaluations_sym: vec![],
            layers_auth_paths: vec![],
            layers_evaluations: vec![],
        };
        for k in 0..nl {
            let m = words[k].len();
            let i = io % m;
            let j = (io + m / 2) % m;
            let mut sv = words[k][j].clone();
            if dev.cover == "sym" && dev.sw == k as i64 + 1 {
                let want = if k + 1 < nl {
                    words[k + 1][io % (m / 2)].clone()
                } else {
                    last.clone()
                };
                let v = &words[k][i];
                let r = &zetas[k] * doms[k][i].inv();
                let a = (Fe::<F>::one() + &r) * &half;
                let b = (Fe::<F>::one() - &r) * &half;
                sv = (want - v * a) * b.inv();
            }
            fd.layers_auth_paths_sym.push(ftrees[k].path(j));
            fd.layers_evaluations_sym.push(sv);
            fd.layers_auth_paths.push(ftrees[k].path(i));
            fd.layers_evaluations.push(words[k][i].clone());
        }
        let mut te: Vec<Fe<F>> = shown.iter().map(|c| c[io].clone()).collect();
        let (mut e, mut od) = (sc[0][io].clone(), sc[1][io].clone());
        if nl == 0 {
            fd.layers_evaluations.push(deep[io].clone());
        }
        if dev.sw == 0 && dev.cover != "none" {
            let gap = &words[0][io] - &deep[io];
            let di = (&xs[io] - &z2).inv();
            match dev.cover.as_str() {
                "even" => e = e + gap * (&ge * &di).inv(),
                "odd" => od = od + gap * (&go * &di).inv(),
                c => {
                    let j = if c == "aux" { d.cols - d.aux } else { 0 };
                    let coef = zk.iter().enumerate().fold(Fe::<F>::zero(), |a, (k, p)| {
                        a + &gam[j * d.offs.len() + k] * (&xs[io] - p).inv()
                    });
                    te[j] = &te[j] + gap * coef.inv();
                }
            }
        }
        let mut tp: Vec<_> = trees.iter().map(|t| t.path(io)).collect();
        if let Some(pad) = dev.pad.as_ref().filter(|p| p.q < 0 || p.q == qn as i64) {
            if pad.w.iter().any(|x| x == "more") && nl > 0 {
                let m = words[nl - 1].len();
                let (v, sv) = (&words[nl - 1][io % m], &fd.layers_evaluations_sym[nl - 1]);
                fd.layers_evaluations.push(
                    (v + sv) * &half + &zetas[nl - 1] * (v - sv) * &half * doms[nl - 1][io % m].inv(),
                );
            }
            pad.cuts("fe", &mut fd.layers_evaluations);
            pad.cuts("fes", &mut fd.layers_evaluations_sym);
            pad.cuts("fp", &mut fd.layers_auth_paths);
            pad.cuts("fps", &mut fd.layers_auth_paths_sym);
            pad.cuts("tp", &mut tp);
        }
        queries.push(fd);
        openings.push(DeepPolynomialOpenings {
            lde_composition_poly_proof: ctree.path(io),
            lde_composition_poly_even_evaluation: e,
            lde_composition_poly_odd_evaluation: od,
            lde_trace_merkle_proofs: tp,
            lde_trace_evaluations: te,
        });
    }
    let mut roots: Vec<_> = trees.iter().map(|t| t.root()).collect();
    if let Some(pad) = &dev.pad {
        pad.cuts("roots", &mut roots);
    }
    let proof = StarkProof {
        trace_length: t,
        lde_trace_merkle_roots: roots,
        trace_ood_frame_evaluations: Frame::new(ood.into_iter().flatten().collect(), ncols),
        composition_poly_root: ctree.root(),
        composition_poly_even_ood_evaluation: h1,
        composition_poly_odd_ood_evaluation: h2,
        fri_layers_merkle_roots: ftrees.iter().map(|t| t.root()).collect(),
        fri_last_value: last,
        query_list: queries,
        deep_poly_openings: openings,
        nonce,
    };
    Ok(Forged { proof })
}
