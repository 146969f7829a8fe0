//! Independent reference of the documented protocol: a recorder of constraint systems, a prover that
//! accepts any (also wrong) assignment, and an unbatched verifier. It works over generators with known
//! discrete logarithms, so that a commitment costs one scalar multiplication whatever the size.

use crate::src::fe_seed;
use amcl_wrapper::constants::MODBYTES;
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::{
    ConstraintSystem, LinearCombination, R1CSProof, RandomizedConstraintSystem, Variable,
};
use merlin::Transcript;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::OnceLock;

pub type Fe = FieldElement;

pub fn feq(a: &Fe, b: &Fe) -> bool {
    (a - b).is_zero()
}

/// How the two constraints of a gate are written down, which the protocol leaves open: their order
/// and sign. Taken from the library's verifier (with the hooks; otherwise as in the original code).
#[derive(Clone, Copy, Default)]
pub struct GateOrder {
    right_first: bool,
    neg_l: bool,
    neg_r: bool,
}

pub fn gate_order() -> GateOrder {
    static O: OnceLock<GateOrder> = OnceLock::new();
    *O.get_or_init(|| std::panic::catch_unwind(gate_order_of_library).ok().flatten().unwrap_or_default())
}

#[cfg(not(verif_hooks))]
fn gate_order_of_library() -> Option<GateOrder> {
    None
}

#[cfg(verif_hooks)]
fn gate_order_of_library() -> Option<GateOrder> {
    let mut t = Transcript::new(b"order");
    let mut v = bulletproofs_amcl::r1cs::Verifier::new(&mut t);
    v.multiply(Variable::One().into(), Variable::One().into());
    let cs = v.verif_constraints();
    if cs.len() != 2 {
        return None;
    }
    let find = |w: Variable| -> Option<(usize, bool)> {
        for (k, c) in cs.iter().enumerate() {
            for (x, y) in c.terms.iter() {
                if *x == w {
                    return Some((k, feq(y, &Fe::one())));
                }
            }
        }
        None
    };
    let (kl, neg_l) = find(Variable::MultiplierLeft(0))?;
    let (kr, neg_r) = find(Variable::MultiplierRight(0))?;
    if kl == kr {
        return None;
    }
    Some(GateOrder { right_first: kr < kl, neg_l, neg_r })
}

pub struct Gens {
    pub g: G1,
    pub h: G1,
    pub gv: G1Vector,
    pub hv: G1Vector,
    pub gd: Fe,
    pub hd: Fe,
    pub gvd: Vec<Fe>,
    pub hvd: Vec<Fe>,
}

fn mul_base(ss: &[Fe]) -> Vec<G1> {
    let nt = 8;
    let chunk = (ss.len() + nt - 1) / nt;
    let mut out: Vec<Vec<G1>> = vec![];
    std::thread::scope(|sc| {
        let hs: Vec<_> = ss
            .chunks(chunk.max(1))
            .map(|c| {
                sc.spawn(move || {
                    let b = G1::generator();
                    c.iter().map(|s| &b * s).collect::<Vec<G1>>()
                })
            })
            .collect();
        for h in hs {
            out.push(h.join().unwrap());
        }
    });
    out.into_iter().flatten().collect()
}

fn make_gens(n: usize, salt: u64) -> Gens {
    let gd = fe_seed(salt ^ 11);
    let hd = fe_seed(salt ^ 12);
    let gvd: Vec<Fe> = (0..n).map(|i| fe_seed(salt ^ (0x1000 + i as u64))).collect();
    let hvd: Vec<Fe> = (0..n).map(|i| fe_seed(salt ^ (0x9000000 + i as u64))).collect();
    let mut all = vec![gd.clone(), hd.clone()];
    all.extend(gvd.iter().cloned());
    all.extend(hvd.iter().cloned());
    let pts = mul_base(&all);
    Gens {
        g: pts[0].clone(),
        h: pts[1].clone(),
        gv: pts[2..2 + n].to_vec().into(),
        hv: pts[2 + n..].to_vec().into(),
        gd,
        hd,
        gvd,
        hvd,
    }
}

/// Generators with known discrete logarithms; at least `n` of each.
pub fn gens(n: usize) -> &'static Gens {
    static A: OnceLock<Gens> = OnceLock::new();
    static B: OnceLock<Gens> = OnceLock::new();
    static C: OnceLock<Gens> = OnceLock::new();
    static D: OnceLock<Gens> = OnceLock::new();
    if n <= 64 {
        A.get_or_init(|| make_gens(64, 0))
    } else if n <= 256 {
        B.get_or_init(|| make_gens(256, 0))
    } else if n <= 1024 {
        C.get_or_init(|| make_gens(1024, 0))
    } else {
        assert!(n <= 4096, "generator pool too small for {}", n);
        D.get_or_init(|| make_gens(4096, 0))
    }
}

/// Generators of nothing-up-my-sleeve origin, as users have them.
pub fn hash_gens() -> &'static (G1, G1, G1Vector, G1Vector) {
    static A: OnceLock<(G1, G1, G1Vector, G1Vector)> = OnceLock::new();
    A.get_or_init(|| {
        (
            G1::from_msg_hash(b"verif g"),
            G1::from_msg_hash(b"verif h"),
            (0..64)
                .map(|i| G1::from_msg_hash(format!("verif G{}", i).as_bytes()))
                .collect::<Vec<_>>()
                .into(),
            (0..64)
                .map(|i| G1::from_msg_hash(format!("verif H{}", i).as_bytes()))
                .collect::<Vec<_>>()
                .into(),
        )
    })
}

pub fn pt(s: &Fe) -> G1 {
    G1::generator() * s
}

pub fn commit(gs: &Gens, v: &Fe, b: &Fe) -> G1 {
    pt(&(&(&gs.gd * v) + &(&gs.hd * b)))
}

pub fn absorb_point(t: &mut Transcript, label: &'static [u8], p: &G1) {
    // one encoding for the identity, however it was computed
    let p = if p.is_identity() { G1::identity() } else { p.clone() };
    t.append_message(label, &p.to_bytes());
}

pub fn absorb_scalar(t: &mut Transcript, label: &'static [u8], s: &Fe) {
    t.append_message(label, &s.to_bytes());
}

pub fn challenge(t: &mut Transcript, label: &'static [u8]) -> Fe {
    let mut buf = [0u8; MODBYTES];
    t.challenge_bytes(label, &mut buf);
    FieldElement::from(&buf)
}

/// 32 bytes that identify the state of a transcript
pub fn state(t: &Transcript) -> [u8; 32] {
    let mut t = t.clone();
    let mut b = [0u8; 32];
    t.challenge_bytes(b"verif end state", &mut b);
    b
}

#[derive(Clone, Debug)]
pub struct Wire(pub char, pub usize);

/// Reference constraint system. `proving` decides whether assignments are tracked.
pub struct RefCS {
    pub tr: Transcript,
    pub proving: bool,
    pub cons: Vec<LinearCombination>,
    pub al: Vec<Fe>,
    pub ar: Vec<Fe>,
    pub ao: Vec<Fe>,
    pub v: Vec<Fe>,
    pub vb: Vec<Fe>,
    pub vp: Vec<G1>,
    pub n: usize,
    pending: Option<usize>,
    deferred: Vec<Box<dyn Fn(&mut RefCS) -> Result<(), R1CSError>>>,
    pub phase2: bool,
    pub challenges_drawn: usize,
    /// challenges to hand out instead of those of the transcript
    pub script: Option<Vec<Fe>>,
}

pub fn eval_terms(
    lc: &LinearCombination,
    al: &[Fe],
    ar: &[Fe],
    ao: &[Fe],
    v: &[Fe],
) -> Fe {
    let mut s = Fe::zero();
    for (var, c) in lc.terms.iter() {
        let x = match var {
            Variable::MultiplierLeft(i) => al[*i].clone(),
            Variable::MultiplierRight(i) => ar[*i].clone(),
            Variable::MultiplierOutput(i) => ao[*i].clone(),
            Variable::Committed(i) => v[*i].clone(),
            Variable::One() => Fe::one(),
        };
        s = &s + &(c * &x);
    }
    s
}

impl RefCS {
    pub fn new(mut tr: Transcript, proving: bool) -> RefCS {
        tr.append_message(b"dom-sep", b"r1cs v1");
        RefCS {
            tr,
            proving,
            cons: vec![],
            al: vec![],
            ar: vec![],
            ao: vec![],
            v: vec![],
            vb: vec![],
            vp: vec![],
            n: 0,
            pending: None,
            deferred: vec![],
            phase2: false,
            challenges_drawn: 0,
            script: None,
        }
    }
    pub fn commit_value(&mut self, gs: &Gens, v: &Fe, b: &Fe) -> Variable {
        let p = commit(gs, v, b);
        self.v.push(v.clone());
        self.vb.push(b.clone());
        self.commit_point(p)
    }
    pub fn commit_point(&mut self, p: G1) -> Variable {
        absorb_point(&mut self.tr, b"V", &p);
        self.vp.push(p);
        Variable::Committed(self.vp.len() - 1)
    }
    fn new_gate(&mut self, l: Fe, r: Fe) -> usize {
        let o = &l * &r;
        self.al.push(l);
        self.ar.push(r);
        self.ao.push(o);
        self.n += 1;
        self.n - 1
    }
    pub fn eval(&self, lc: &LinearCombination) -> Fe {
        eval_terms(lc, &self.al, &self.ar, &self.ao, &self.v)
    }
    /// First constraint or gate that the assignment does not satisfy
    pub fn unsatisfied(&self) -> Option<String> {
        for (i, lc) in self.cons.iter().enumerate() {
            if !self.eval(lc).is_zero() {
                return Some(format!("constraint {}", i));
            }
        }
        for i in 0..self.n {
            if !feq(&(&self.al[i] * &self.ar[i]), &self.ao[i]) {
                return Some(format!("gate {}", i));
            }
        }
        None
    }
    fn tamper(&mut self, ts: &[(Wire, Fe)], from: usize, to: usize) {
        for (Wire(k, i), d) in ts {
            if *i >= from && *i < to {
                let x = match k {
                    'l' => &mut self.al[*i],
                    'r' => &mut self.ar[*i],
                    _ => &mut self.ao[*i],
                };
                *x = &*x + d;
            }
        }
    }
    pub fn finish_phase(&mut self) -> Result<(), R1CSError> {
        self.phase_end()
    }
    fn phase_end(&mut self) -> Result<(), R1CSError> {
        self.pending = None;
        if self.deferred.is_empty() {
            self.tr.append_message(b"dom-sep", b"r1cs-1phase");
        } else {
            self.tr.append_message(b"dom-sep", b"r1cs-2phase");
            self.phase2 = true;
            let cbs = std::mem::replace(&mut self.deferred, vec![]);
            for cb in cbs.iter() {
                cb(self)?;
            }
        }
        Ok(())
    }
    fn flatten(&self, z: &Fe) -> (Vec<Fe>, Vec<Fe>, Vec<Fe>, Vec<Fe>, Fe) {
        let zero = |k: usize| vec![Fe::zero(); k];
        let (mut wl, mut wr, mut wo, mut wv, mut wc) = (
            zero(self.n),
            zero(self.n),
            zero(self.n),
            zero(self.vp.len()),
            Fe::zero(),
        );
        let mut zq = Fe::one();
        for lc in self.cons.iter() {
            zq = &zq * z;
            for (var, c) in lc.terms.iter() {
                let t = &zq * c;
                match var {
                    Variable::MultiplierLeft(i) => wl[*i] = &wl[*i] + &t,
                    Variable::MultiplierRight(i) => wr[*i] = &wr[*i] + &t,
                    Variable::MultiplierOutput(i) => wo[*i] = &wo[*i] + &t,
                    Variable::Committed(i) => wv[*i] = &wv[*i] - &t,
                    Variable::One() => wc = &wc - &t,
                }
            }
        }
        (wl, wr, wo, wv, wc)
    }
}

impl ConstraintSystem for RefCS {
    type RandomizedCS = RefCS;

    fn multiply(
        &mut self,
        left: LinearCombination,
        right: LinearCombination,
    ) -> (Variable, Variable, Variable) {
        let (l, r) = if self.proving {
            (self.eval(&left), self.eval(&right))
        } else {
            (Fe::zero(), Fe::zero())
        };
        let i = self.new_gate(l, r);
        let mut lt = left.terms.clone();
        lt.push((Variable::MultiplierLeft(i), Fe::minus_one()));
        let mut rt = right.terms.clone();
        rt.push((Variable::MultiplierRight(i), Fe::minus_one()));
        let (l, r) = (LinearCombination { terms: lt }, LinearCombination { terms: rt });
        let o = gate_order();
        let (l, r) = (if o.neg_l { -l } else { l }, if o.neg_r { -r } else { r });
        if o.right_first {
            self.cons.push(r);
            self.cons.push(l);
        } else {
            self.cons.push(l);
            self.cons.push(r);
        }
        (
            Variable::MultiplierLeft(i),
            Variable::MultiplierRight(i),
            Variable::MultiplierOutput(i),
        )
    }

    fn allocate(&mut self, a: Option<Fe>) -> Result<Variable, R1CSError> {
        let x = if self.proving {
            a.ok_or(R1CSError::MissingAssignment)?
        } else {
            Fe::zero()
        };
        match self.pending.take() {
            None => {
                let i = self.new_gate(x, Fe::zero());
                self.pending = Some(i);
                Ok(Variable::MultiplierLeft(i))
            }
            Some(i) => {
                self.ao[i] = &self.al[i] * &x;
                self.ar[i] = x;
                Ok(Variable::MultiplierRight(i))
            }
        }
    }

    fn allocate_multiplier(
        &mut self,
        a: Option<(Fe, Fe)>,
    ) -> Result<(Variable, Variable, Variable), R1CSError> {
        let (l, r) = if self.proving {
            a.ok_or(R1CSError::MissingAssignment)?
        } else {
            (Fe::zero(), Fe::zero())
        };
        let i = self.new_gate(l, r);
        Ok((
            Variable::MultiplierLeft(i),
            Variable::MultiplierRight(i),
            Variable::MultiplierOutput(i),
        ))
    }

    fn constrain(&mut self, lc: LinearCombination) {
        self.cons.push(lc);
    }

    fn specify_randomized_constraints<F>(&mut self, callback: F) -> Result<(), R1CSError>
    where
        F: 'static + Fn(&mut Self::RandomizedCS) -> Result<(), R1CSError>,
    {
        if self.phase2 {
            callback(self)
        } else {
            self.deferred.push(Box::new(callback));
            Ok(())
        }
    }

    fn evaluate_lc(&self, lc: &LinearCombination) -> Option<Fe> {
        if self.proving {
            Some(self.eval(lc))
        } else {
            None
        }
    }

    fn allocate_single(
        &mut self,
        a: Option<Fe>,
    ) -> Result<(Variable, Option<Variable>), R1CSError> {
        let v = self.allocate(a)?;
        match v {
            Variable::MultiplierRight(i) => Ok((v, Some(Variable::MultiplierOutput(i)))),
            _ => Ok((v, None)),
        }
    }
}

impl RandomizedConstraintSystem for RefCS {
    fn challenge_scalar(&mut self, label: &'static [u8]) -> Fe {
        self.challenges_drawn += 1;
        if let Some(sc) = &self.script {
            return sc.get(self.challenges_drawn - 1).cloned().unwrap_or_else(Fe::zero);
        }
        challenge(&mut self.tr, label)
    }
}

/// The parts of an R1CS proof
#[derive(Clone)]
pub struct Parts {
    /// A_I1 A_O1 S1 A_I2 A_O2 S2 T_1 T_3 T_4 T_5 T_6
    pub pts: Vec<G1>,
    /// t_x t_x_blinding e_blinding
    pub sc: Vec<Fe>,
    pub l: Vec<G1>,
    pub r: Vec<G1>,
    pub a: Fe,
    pub b: Fe,
}

pub const PT_NAMES: [&str; 11] = [
    "A_I1", "A_O1", "S1", "A_I2", "A_O2", "S2", "T_1", "T_3", "T_4", "T_5", "T_6",
];
pub const SC_NAMES: [&str; 3] = ["t_x", "t_x_blinding", "e_blinding"];

fn to_json<T: serde::Serialize>(x: &T) -> Value {
    serde_json::to_value(x).unwrap()
}

impl Parts {
    pub fn json(&self) -> Value {
        let lv: G1Vector = self.l.clone().into();
        let rv: G1Vector = self.r.clone().into();
        let mut m = serde_json::Map::new();
        for (k, p) in PT_NAMES.iter().zip(self.pts.iter()) {
            m.insert(k.to_string(), to_json(p));
        }
        for (k, s) in SC_NAMES.iter().zip(self.sc.iter()) {
            m.insert(k.to_string(), to_json(s));
        }
        m.insert(
            "ipp_proof".to_string(),
            json!({"L": to_json(&lv), "R": to_json(&rv), "a": to_json(&self.a), "b": to_json(&self.b)}),
        );
        Value::Object(m)
    }
    pub fn proof(&self) -> R1CSProof {
        proof_from_json(&self.json()).expect("reference proof must deserialise")
    }
    pub fn of(p: &R1CSProof) -> Parts {
        Parts::of_json(&serde_json::to_value(p).unwrap())
    }
    pub fn of_json(j: &Value) -> Parts {
        let g = |v: &Value| -> G1 { serde_json::from_value(v.clone()).unwrap() };
        let f = |v: &Value| -> Fe { serde_json::from_value(v.clone()).unwrap() };
        let gv = |v: &Value| -> Vec<G1> {
            let x: G1Vector = serde_json::from_value(v.clone()).unwrap();
            x.as_slice().to_vec()
        };
        Parts {
            pts: PT_NAMES.iter().map(|k| g(&j[*k])).collect(),
            sc: SC_NAMES.iter().map(|k| f(&j[*k])).collect(),
            l: gv(&j["ipp_proof"]["L"]),
            r: gv(&j["ipp_proof"]["R"]),
            a: f(&j["ipp_proof"]["a"]),
            b: f(&j["ipp_proof"]["b"]),
        }
    }
}

pub fn proof_from_json(j: &Value) -> Result<R1CSProof, String> {
    // text form, as a user has it
    serde_json::from_str(&j.to_string()).map_err(|e| e.to_string())
}

#[derive(Default)]
pub struct Opts {
    /// added to wires before they are committed
    pub tamper: Vec<(Wire, Fe)>,
    /// all blindings zero
    pub zero_blinding: bool,
    /// send the t(x) the verifier's commitment equation asks for instead of <l, r>
    pub lie_t: bool,
    /// add to t(x) after the inner product vectors are fixed
    pub t_shift: Option<Fe>,
    /// t_x_blinding += d and e_blinding -= k d, where k is a constant times an optional challenge
    pub comp: Option<(Fe, Fe, Option<&'static str>)>,
    /// add a point (by its discrete logarithm) to a proof point before it is absorbed, without
    /// accounting for it in the scalars
    pub pt_shift: Vec<(usize, Fe)>,
    /// surplus rounds of the inner-product argument
    pub surplus: Option<Surplus>,
}

/// Rounds of identities (or of the given L) before or after the genuine ones; the final scalars are
/// multiplied by these powers of each surplus challenge
#[derive(Clone, Debug, Default)]
pub struct Surplus {
    pub rounds: usize,
    pub front: bool,
    pub pow_a: i32,
    pub pow_b: i32,
    /// L is this multiple of Q times the inner product
    pub l: Option<Fe>,
}

pub struct RefProof {
    pub parts: Parts,
    pub unsat: Option<String>,
    pub end: Transcript,
    pub chal: HashMap<&'static str, Fe>,
    pub n1: usize,
    pub n: usize,
    pub cs: RefCS,
}

fn ip(a: &[Fe], b: &[Fe]) -> Fe {
    let mut s = Fe::zero();
    for (x, y) in a.iter().zip(b.iter()) {
        s = &s + &(x * y);
    }
    s
}

/// Inner-product argument over known discrete logarithms. Returns L, R, a, b and the challenges.
pub fn ref_ipp(
    tr: &mut Transcript,
    qd: &Fe,
    gd: &[Fe],
    hd: &[Fe],
    a: &[Fe],
    b: &[Fe],
) -> (Vec<G1>, Vec<G1>, Fe, Fe, Vec<Fe>) {
    ref_ipp_surplus(tr, qd, gd, hd, a, b, &Surplus::default())
}

pub fn ref_ipp_surplus(
    tr: &mut Transcript,
    qd: &Fe,
    gd: &[Fe],
    hd: &[Fe],
    a: &[Fe],
    b: &[Fe],
    extra: &Surplus,
) -> (Vec<G1>, Vec<G1>, Fe, Fe, Vec<Fe>) {
    let prod = ip(a, b);
    let (mut fa, mut fb) = (Fe::one(), Fe::one());
    let mut add = |tr: &mut Transcript, lv: &mut Vec<G1>, rv: &mut Vec<G1>| {
        for _ in 0..extra.rounds {
            let l = match &extra.l {
                Some(k) => pt(&(&(k * qd) * &prod)),
                None => G1::identity(),
            };
            let r = G1::identity();
            absorb_point(tr, b"L", &l);
            absorb_point(tr, b"R", &r);
            lv.push(l);
            rv.push(r);
            let u = challenge(tr, b"u");
            let ui = u.inverse();
            let f = |k: i32| match k {
                1 => u.clone(),
                -1 => ui.clone(),
                _ => Fe::one(),
            };
            fa = &fa * &f(extra.pow_a);
            fb = &fb * &f(extra.pow_b);
        }
    };
    let (mut g, mut h, mut a, mut b) = (gd.to_vec(), hd.to_vec(), a.to_vec(), b.to_vec());
    let mut n = g.len();
    tr.append_message(b"dom-sep", b"ipp v1");
    tr.append_message(b"n", &(n as u64).to_le_bytes());
    let (mut lv, mut rv, mut us) = (vec![], vec![], vec![]);
    if extra.front {
        add(tr, &mut lv, &mut rv);
    }
    while n > 1 {
        n /= 2;
        let cl = ip(&a[..n], &b[n..]);
        let cr = ip(&a[n..], &b[..n]);
        let l = &(&ip(&a[..n], &g[n..]) + &ip(&b[n..], &h[..n])) + &(&cl * qd);
        let r = &(&ip(&a[n..], &g[..n]) + &ip(&b[..n], &h[n..])) + &(&cr * qd);
        let (l, r) = (pt(&l), pt(&r));
        absorb_point(tr, b"L", &l);
        absorb_point(tr, b"R", &r);
        lv.push(l);
        rv.push(r);
        let u = challenge(tr, b"u");
        let ui = u.inverse();
        for i in 0..n {
            a[i] = &(&a[i] * &u) + &(&a[n + i] * &ui);
            b[i] = &(&b[i] * &ui) + &(&b[n + i] * &u);
            g[i] = &(&g[i] * &ui) + &(&g[n + i] * &u);
            h[i] = &(&h[i] * &u) + &(&h[n + i] * &ui);
        }
        us.push(u);
        a.truncate(n);
        b.truncate(n);
        g.truncate(n);
        h.truncate(n);
    }
    if !extra.front {
        add(tr, &mut lv, &mut rv);
    }
    drop(add);
    (lv, rv, &a[0] * &fa, &b[0] * &fb, us)
}

fn powers(x: &Fe, n: usize) -> Vec<Fe> {
    let mut r = Vec::with_capacity(n);
    let mut p = Fe::one();
    for _ in 0..n {
        r.push(p.clone());
        p = &p * x;
    }
    r
}

/// Prove whatever the assignment is.
pub fn ref_prove(
    mut cs: RefCS,
    gs: &Gens,
    opts: &Opts,
    rnd: &mut dyn FnMut() -> Fe,
) -> Result<RefProof, R1CSError> {
    let mut chal: HashMap<&'static str, Fe> = HashMap::new();
    let m = cs.v.len() as u64;
    cs.tr.append_message(b"m", &m.to_le_bytes());
    let n1 = cs.n;
    cs.tamper(&opts.tamper, 0, n1);
    let zero = opts.zero_blinding;
    let mut rn = || if zero { Fe::zero() } else { rnd() };
    let mut sl: Vec<Fe> = (0..n1).map(|_| rn()).collect();
    let mut sr: Vec<Fe> = (0..n1).map(|_| rn()).collect();
    let (ib1, ob1, sb1) = (rn(), rn(), rn());
    let com = |gs: &Gens, lo: usize, hi: usize, l: &[Fe], r: Option<&[Fe]>, b: &Fe| -> G1 {
        let mut s = &ip(&gs.gvd[lo..hi], l) + &(&gs.hd * b);
        if let Some(r) = r {
            s = &s + &ip(&gs.hvd[lo..hi], r);
        }
        pt(&s)
    };
    let adj = |k: usize, p: G1| -> G1 {
        let mut p = p;
        for (i, d) in opts.pt_shift.iter() {
            if *i == k {
                p = &p + &pt(d);
            }
        }
        p
    };
    let a_i1 = adj(0, com(gs, 0, n1, &cs.al, Some(&cs.ar), &ib1));
    let a_o1 = adj(1, com(gs, 0, n1, &cs.ao, None, &ob1));
    let s1 = adj(2, com(gs, 0, n1, &sl, Some(&sr), &sb1));
    absorb_point(&mut cs.tr, b"A_I1", &a_i1);
    absorb_point(&mut cs.tr, b"A_O1", &a_o1);
    absorb_point(&mut cs.tr, b"S1", &s1);
    cs.phase_end()?;
    let n = cs.n;
    cs.tamper(&opts.tamper, n1, n);
    let n2 = n - n1;
    let pn = n.next_power_of_two();
    let (mut ib2, mut ob2, mut sb2) = (Fe::zero(), Fe::zero(), Fe::zero());
    let (a_i2, a_o2, s2) = if n2 > 0 {
        ib2 = rn();
        ob2 = rn();
        sb2 = rn();
        let sl2: Vec<Fe> = (0..n2).map(|_| rn()).collect();
        let sr2: Vec<Fe> = (0..n2).map(|_| rn()).collect();
        let r = (
            com(gs, n1, n, &cs.al[n1..], Some(&cs.ar[n1..]), &ib2),
            com(gs, n1, n, &cs.ao[n1..], None, &ob2),
            com(gs, n1, n, &sl2, Some(&sr2), &sb2),
        );
        sl.extend(sl2);
        sr.extend(sr2);
        r
    } else {
        (G1::identity(), G1::identity(), G1::identity())
    };
    let (a_i2, a_o2, s2) = (adj(3, a_i2), adj(4, a_o2), adj(5, s2));
    absorb_point(&mut cs.tr, b"A_I2", &a_i2);
    absorb_point(&mut cs.tr, b"A_O2", &a_o2);
    absorb_point(&mut cs.tr, b"S2", &s2);
    let y = challenge(&mut cs.tr, b"y");
    let z = challenge(&mut cs.tr, b"z");
    let (wl, wr, wo, wv, wc) = cs.flatten(&z);
    let yn = powers(&y, pn);
    let yi = powers(&y.inverse(), pn);
    // l(x) = l1 x + l2 x^2 + l3 x^3, r(x) = r0 + r1 x + r3 x^3
    let l1: Vec<Fe> = (0..n).map(|i| &cs.al[i] + &(&yi[i] * &wr[i])).collect();
    let l2: Vec<Fe> = cs.ao.clone();
    let l3 = sl;
    let r0: Vec<Fe> = (0..n).map(|i| &wo[i] - &yn[i]).collect();
    let r1: Vec<Fe> = (0..n).map(|i| &(&yn[i] * &cs.ar[i]) + &wl[i]).collect();
    let r3: Vec<Fe> = (0..n).map(|i| &yn[i] * &sr[i]).collect();
    let t1 = ip(&l1, &r0);
    let t3 = &ip(&l2, &r1) + &ip(&l3, &r0);
    let t4 = &ip(&l1, &r3) + &ip(&l3, &r1);
    let t5 = ip(&l2, &r3);
    let t6 = ip(&l3, &r3);
    let tb: Vec<Fe> = (0..5).map(|_| rn()).collect();
    let ts: Vec<G1> = [&t1, &t3, &t4, &t5, &t6]
        .iter()
        .zip(tb.iter())
        .map(|(t, b)| commit(gs, t, b))
        .enumerate()
        .map(|(k, p)| adj(6 + k, p))
        .collect();
    for (l, p) in [b"T_1", b"T_3", b"T_4", b"T_5", b"T_6"].iter().zip(ts.iter()) {
        absorb_point(&mut cs.tr, *l, p);
    }
    let u = challenge(&mut cs.tr, b"u");
    let x = challenge(&mut cs.tr, b"x");
    let xp = powers(&x, 7);
    let mut lv: Vec<Fe> = (0..n)
        .map(|i| &(&(&l1[i] * &xp[1]) + &(&l2[i] * &xp[2])) + &(&l3[i] * &xp[3]))
        .collect();
    let mut rv: Vec<Fe> = (0..n)
        .map(|i| &(&r0[i] + &(&r1[i] * &xp[1])) + &(&r3[i] * &xp[3]))
        .collect();
    for i in n..pn {
        lv.push(Fe::zero());
        rv.push(yn[i].negation());
    }
    // t(x) as sent: the inner product of what is committed
    let mut t_x = ip(&lv, &rv);
    if opts.lie_t {
        let mut t2 = &wc + &ip(&wv, &cs.v);
        for i in 0..n {
            t2 = &t2 + &(&(&yi[i] * &wr[i]) * &wl[i]);
        }
        t_x = &t2 * &xp[2];
        for (k, t) in [1usize, 3, 4, 5, 6].iter().zip([&t1, &t3, &t4, &t5, &t6].iter()) {
            t_x = &t_x + &(*t * &xp[*k]);
        }
    }
    let tb2 = ip(&wv, &cs.vb);
    if let Some(d) = &opts.t_shift {
        t_x = &t_x + d;
    }
    let mut t_x_bl = &tb2 * &xp[2];
    for (k, b) in [1usize, 3, 4, 5, 6].iter().zip(tb.iter()) {
        t_x_bl = &t_x_bl + &(b * &xp[*k]);
    }
    let ib = &ib1 + &(&u * &ib2);
    let ob = &ob1 + &(&u * &ob2);
    let sb = &sb1 + &(&u * &sb2);
    let mut e_bl = &(&(&ib * &xp[1]) + &(&ob * &xp[2])) + &(&sb * &xp[3]);
    if let Some((d, k, c)) = &opts.comp {
        let mut wt = k.clone();
        match *c {
            Some("y") => wt = &wt * &y,
            Some("z") => wt = &wt * &z,
            Some("u") => wt = &wt * &u,
            Some("x") => wt = &wt * &x,
            _ => {}
        }
        t_x_bl = &t_x_bl + d;
        e_bl = &e_bl - &(&wt * d);
    }
    absorb_scalar(&mut cs.tr, b"t_x", &t_x);
    absorb_scalar(&mut cs.tr, b"t_x_blinding", &t_x_bl);
    absorb_scalar(&mut cs.tr, b"e_blinding", &e_bl);
    let w = challenge(&mut cs.tr, b"w");
    let gd: Vec<Fe> = (0..pn)
        .map(|i| if i < n1 { gs.gvd[i].clone() } else { &gs.gvd[i] * &u })
        .collect();
    let hd: Vec<Fe> = (0..pn)
        .map(|i| {
            let k = &gs.hvd[i] * &yi[i];
            if i < n1 {
                k
            } else {
                &k * &u
            }
        })
        .collect();
    let none = Surplus::default();
    let (l, r, a, b, _) = ref_ipp_surplus(
        &mut cs.tr,
        &(&gs.gd * &w),
        &gd,
        &hd,
        &lv,
        &rv,
        opts.surplus.as_ref().unwrap_or(&none),
    );
    for (k, c) in vec![("y", y), ("z", z), ("u", u), ("x", x), ("w", w)] {
        chal.insert(k, c);
    }
    let mut pts = vec![a_i1, a_o1, s1, a_i2, a_o2, s2];
    pts.extend(ts);
    Ok(RefProof {
        parts: Parts {
            pts,
            sc: vec![t_x, t_x_bl, e_bl],
            l,
            r,
            a,
            b,
        },
        unsat: cs.unsatisfied(),
        end: cs.tr.clone(),
        chal,
        n1,
        n,
        cs,
    })
}

pub struct RefVerdict {
    pub t_ok: bool,
    pub ipp_ok: bool,
    pub end: Transcript,
    pub n: usize,
    pub chal: HashMap<&'static str, Fe>,
}

/// Verify both equations of the protocol one by one.
pub fn ref_verify(mut cs: RefCS, gs: &Gens, p: &Parts) -> Result<RefVerdict, String> {
    let m = cs.vp.len() as u64;
    cs.tr.append_message(b"m", &m.to_le_bytes());
    let n1 = cs.n;
    absorb_point(&mut cs.tr, b"A_I1", &p.pts[0]);
    absorb_point(&mut cs.tr, b"A_O1", &p.pts[1]);
    absorb_point(&mut cs.tr, b"S1", &p.pts[2]);
    cs.phase_end().map_err(|e| format!("{:?}", e))?;
    let n = cs.n;
    let pn = n.next_power_of_two();
    absorb_point(&mut cs.tr, b"A_I2", &p.pts[3]);
    absorb_point(&mut cs.tr, b"A_O2", &p.pts[4]);
    absorb_point(&mut cs.tr, b"S2", &p.pts[5]);
    let y = challenge(&mut cs.tr, b"y");
    let z = challenge(&mut cs.tr, b"z");
    for (l, q) in [b"T_1", b"T_3", b"T_4", b"T_5", b"T_6"].iter().zip(p.pts[6..].iter()) {
        absorb_point(&mut cs.tr, *l, q);
    }
    let u = challenge(&mut cs.tr, b"u");
    let x = challenge(&mut cs.tr, b"x");
    absorb_scalar(&mut cs.tr, b"t_x", &p.sc[0]);
    absorb_scalar(&mut cs.tr, b"t_x_blinding", &p.sc[1]);
    absorb_scalar(&mut cs.tr, b"e_blinding", &p.sc[2]);
    let w = challenge(&mut cs.tr, b"w");
    let (wl, wr, wo, wv, wc) = cs.flatten(&z);
    let yn = powers(&y, pn);
    let yi = powers(&y.inverse(), pn);
    let xp = powers(&x, 7);
    // t equation
    let mut delta = Fe::zero();
    for i in 0..n {
        delta = &delta + &(&(&yi[i] * &wr[i]) * &wl[i]);
    }
    let lhs = pt(&(&(&gs.gd * &p.sc[0]) + &(&gs.hd * &p.sc[1])));
    let mut rhs = pt(&(&gs.gd * &(&xp[2] * &(&wc + &delta))));
    for (i, q) in cs.vp.iter().enumerate() {
        rhs = &rhs + &(q * &(&xp[2] * &wv[i]));
    }
    for (k, q) in [1usize, 3, 4, 5, 6].iter().zip(p.pts[6..].iter()) {
        rhs = &rhs + &(q * &xp[*k]);
    }
    let t_ok = (&lhs - &rhs).is_identity();
    // commitment to l(x), r(x) under the rescaled generators
    let fac = |i: usize| if i < n1 { Fe::one() } else { u.clone() };
    let gd: Vec<Fe> = (0..pn).map(|i| &gs.gvd[i] * &fac(i)).collect();
    let hd: Vec<Fe> = (0..pn).map(|i| &(&gs.hvd[i] * &yi[i]) * &fac(i)).collect();
    let mut c = &(&gs.gd * &(&w * &p.sc[0])) - &(&gs.hd * &p.sc[2]);
    for i in 0..pn {
        if i < n {
            c = &c + &(&gd[i] * &(&(&x * &yi[i]) * &wr[i]));
            c = &c + &(&hd[i] * &(&(&wo[i] - &yn[i]) + &(&x * &wl[i])));
        } else {
            c = &c - &(&hd[i] * &yn[i]);
        }
    }
    let mut pp = pt(&c);
    for k in 0..3 {
        let q = &p.pts[k] + &(&p.pts[k + 3] * &u);
        pp = &pp + &(&q * &xp[k + 1]);
    }
    // fold
    let (mut g, mut h) = (gd, hd);
    let mut k = pn;
    cs.tr.append_message(b"dom-sep", b"ipp v1");
    cs.tr.append_message(b"n", &(pn as u64).to_le_bytes());
    let rounds = pn.trailing_zeros() as usize;
    let mut ipp_ok = p.l.len() == rounds && p.r.len() == rounds;
    if ipp_ok {
        for j in 0..rounds {
            absorb_point(&mut cs.tr, b"L", &p.l[j]);
            absorb_point(&mut cs.tr, b"R", &p.r[j]);
            let e = challenge(&mut cs.tr, b"u");
            let ei = e.inverse();
            pp = &pp + &(&(&p.l[j] * &e.square()) + &(&p.r[j] * &ei.square()));
            k /= 2;
            for i in 0..k {
                g[i] = &(&g[i] * &ei) + &(&g[k + i] * &e);
                h[i] = &(&h[i] * &e) + &(&h[k + i] * &ei);
            }
        }
        let fin = &(&(&g[0] * &p.a) + &(&h[0] * &p.b)) + &(&(&p.a * &p.b) * &(&gs.gd * &w));
        ipp_ok = (&pp - &pt(&fin)).is_identity();
    }
    let mut chal = HashMap::new();
    for (k, c) in vec![("y", y), ("z", z), ("u", u), ("x", x), ("w", w)] {
        chal.insert(k, c);
    }
    Ok(RefVerdict {
        t_ok,
        ipp_ok,
        end: cs.tr.clone(),
        n,
        chal,
    })
}
