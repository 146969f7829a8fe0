//! Random constraint-system programs: generated once, interpreted over the prover, the verifier and
//! the reference. All constraints are balanced, so the program's own assignment satisfies it unless a
//! constraint is shifted on purpose.

use crate::refcs::{feq, Fe, RefCS};
use crate::src::{mix, Src};
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::{
    ConstraintSystem, LinearCombination, RandomizedConstraintSystem, Variable,
};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Coef {
    K(Fe),
    /// constant times a challenge drawn before
    Ch(usize, Fe),
}

#[derive(Clone, Debug)]
pub enum Ref {
    One,
    Var(usize),
}

pub type Lc = Vec<(Ref, Coef)>;

#[derive(Clone, Debug)]
pub enum Val {
    K(Fe),
    Eval(Lc),
}

#[derive(Clone, Debug)]
pub enum Op {
    Commit(Fe, Fe),
    Mult(Lc, Lc),
    AllocMult(Val, Val),
    Alloc(Val),
    AllocSingle(Val),
    /// lc = k
    ConstrainTo(Lc, Fe),
    /// allocate a variable with the value of lc and constrain lc to it
    ConstrainSlack(Lc),
    /// sum of challenge_k * (lc_k - value_k) = 0
    ConstrainBatch(Vec<(usize, Lc, Fe)>),
    Eval(Lc),
    /// allocation without a value: the prover must refuse it and stay as it was; the verifier skips it
    AllocNone(usize),
    Challenge(usize),
    Rand(Rc<Vec<Op>>),
}

#[derive(Clone, Debug)]
pub struct Prog {
    pub label: usize,
    pub prior: Vec<Vec<u8>>,
    pub ops: Vec<Op>,
    pub commits: usize,
    pub n1: usize,
    pub n2: usize,
    pub explicit: usize,
    pub blocks: usize,
    pub nested: usize,
    pub half1: bool,
    pub half2: bool,
}

pub const LABELS: [&[u8]; 4] = [b"verif", b"", b"a longer label: r1cs v1", b"V"];
pub const CH_LABELS: [&[u8]; 4] = [b"ch", b"y", b"", b"another challenge"];

pub struct Limits {
    pub ops: usize,
    pub blocks: usize,
    pub block_ops: usize,
    pub none_ops: bool,
}

struct G<'a, 'b> {
    s: &'a mut Src<'b>,
    /// value of every variable in the pool if it does not depend on challenges
    pool: Vec<Option<Fe>>,
    chals: usize,
    pending: Option<Option<Fe>>,
    explicit: usize,
    commits: usize,
    gates: usize,
    nested: usize,
    depth: usize,
    none_ops: bool,
    /// restrict the kinds of operations (index into the selection of `op`)
    only: Option<&'static [usize]>,
    long_lc: usize,
}

impl<'a, 'b> G<'a, 'b> {
    fn lc(&mut self, stat: bool, ch: bool) -> (Lc, Option<Fe>) {
        let k = match self.s.below(12) {
            0 => 0,
            1..=3 => 1,
            4..=6 => 2,
            7..=9 => 3,
            10 => 5,
            _ => 9,
        };
        let k = if self.long_lc > 0 && self.s.chance(1, 3) { self.long_lc } else { k };
        let mut lc: Lc = vec![];
        let mut val = Some(Fe::zero());
        for _ in 0..k {
            let (r, v) = if self.pool.is_empty() || self.s.chance(1, 6) {
                (Ref::One, Some(Fe::one()))
            } else {
                let mut i = self.s.below(self.pool.len());
                // repeated variables on purpose
                if !lc.is_empty() && self.s.chance(1, 5) {
                    if let Ref::Var(j) = lc[lc.len() - 1].0 {
                        i = j;
                    }
                }
                if stat && self.pool[i].is_none() {
                    match self.pool.iter().position(|x| x.is_some()) {
                        Some(j) => i = j,
                        None => continue,
                    }
                }
                (Ref::Var(i), self.pool[i].clone())
            };
            let c = match self.s.below(6) {
                0 => Fe::one(),
                1 => Fe::minus_one(),
                2 => Fe::zero(),
                _ => self.s.fe(),
            };
            if ch && self.chals > 0 && self.s.chance(1, 3) {
                let k = self.s.below(self.chals);
                lc.push((r, Coef::Ch(k, c)));
                val = None;
            } else {
                val = match (val, v) {
                    (Some(a), Some(b)) => Some(&a + &(&c * &b)),
                    _ => None,
                };
                lc.push((r, Coef::K(c)));
            }
        }
        (lc, val)
    }
    fn val(&mut self, phase2: bool) -> (Val, Option<Fe>) {
        if self.s.chance(1, 3) {
            let (lc, v) = self.lc(false, phase2);
            (Val::Eval(lc), v)
        } else {
            let x = self.s.fe();
            (Val::K(x.clone()), Some(x))
        }
    }
    fn alloc_one(&mut self, v: Option<Fe>, single: bool) {
        match self.pending.take() {
            None => {
                self.gates += 1;
                self.pending = Some(v.clone());
                self.pool.push(v);
            }
            Some(l) => {
                self.pool.push(v.clone());
                if single {
                    self.pool.push(match (l, v) {
                        (Some(a), Some(b)) => Some(&a * &b),
                        _ => None,
                    });
                }
            }
        }
    }
    fn op(&mut self, phase2: bool) -> Op {
        if self.none_ops && self.s.chance(1, 12) {
            return Op::AllocNone(self.s.below(3));
        }
        let sel = match self.only {
            Some(k) if self.s.chance(9, 10) => *self.s.pick(k),
            _ => self.s.below(if phase2 { 22 } else { 18 }),
        };
        match sel {
            0..=2 => {
                let (l, lv) = self.lc(false, phase2);
                let (r, rv) = self.lc(false, phase2);
                self.gates += 1;
                let o = match (&lv, &rv) {
                    (Some(a), Some(b)) => Some(a * b),
                    _ => None,
                };
                self.pool.push(lv);
                self.pool.push(rv);
                self.pool.push(o);
                Op::Mult(l, r)
            }
            3 => {
                let (l, lv) = self.val(phase2);
                let (r, rv) = self.val(phase2);
                self.gates += 1;
                let o = match (&lv, &rv) {
                    (Some(a), Some(b)) => Some(a * b),
                    _ => None,
                };
                self.pool.push(lv);
                self.pool.push(rv);
                self.pool.push(o);
                Op::AllocMult(l, r)
            }
            4..=5 => {
                let (v, x) = self.val(phase2);
                self.alloc_one(x, false);
                Op::Alloc(v)
            }
            6..=7 => {
                let (v, x) = self.val(phase2);
                self.alloc_one(x, true);
                Op::AllocSingle(v)
            }
            8..=11 => {
                let (lc, v) = self.lc(true, false);
                self.explicit += 1;
                Op::ConstrainTo(lc, v.unwrap())
            }
            12 => {
                let (lc, v) = self.lc(false, phase2);
                self.alloc_one(v, false);
                self.explicit += 1;
                Op::ConstrainSlack(lc)
            }
            13 => {
                let (lc, _) = self.lc(false, phase2);
                Op::Eval(lc)
            }
            14..=16 if !phase2 => {
                let (v, b) = if self.s.chance(1, 10) {
                    (Fe::zero(), Fe::zero())
                } else {
                    (self.s.fe(), self.s.fe())
                };
                self.pool.push(Some(v.clone()));
                self.commits += 1;
                Op::Commit(v, b)
            }
            14..=17 if phase2 => {
                let l = self.s.below(CH_LABELS.len());
                self.chals += 1;
                Op::Challenge(l)
            }
            18..=20 if self.chals > 0 => {
                let k = self.s.range(1, 3);
                let mut ts = vec![];
                for _ in 0..k {
                    let c = self.s.below(self.chals);
                    let (lc, v) = self.lc(true, false);
                    ts.push((c, lc, v.unwrap()));
                }
                self.explicit += 1;
                Op::ConstrainBatch(ts)
            }
            21 if self.depth < 3 => {
                self.depth += 1;
                self.nested += 1;
                let k = self.s.below(4);
                let ops = (0..k).map(|_| self.op(true)).collect();
                self.depth -= 1;
                Op::Rand(Rc::new(ops))
            }
            _ => {
                let (l, lv) = self.lc(false, phase2);
                let (r, rv) = self.lc(false, phase2);
                self.gates += 1;
                let o = match (&lv, &rv) {
                    (Some(a), Some(b)) => Some(a * b),
                    _ => None,
                };
                self.pool.push(lv);
                self.pool.push(rv);
                self.pool.push(o);
                Op::Mult(l, r)
            }
        }
    }
}

pub fn gen(s: &mut Src, lim: &Limits) -> Prog {
    gen_as(s, lim, None, None, 0)
}

/// Programs with one dimension far beyond the usual: many commitments, constraints, gates, randomised
/// blocks, challenges or terms. The choices are expanded from a few, so that shrinking lowers the counts.
pub fn gen_wide(s: &mut Src) -> Prog {
    let flavour = s.below(7);
    let size = match s.below(4) {
        0 => s.range(100, 255),
        1 => s.range(256, 300),
        2 => s.range(257, 520),
        _ => s.range(500, 1100),
    };
    let seed = s.u();
    let data: Vec<u64> = (0..60_000u64).map(|i| mix(seed.wrapping_add(i.wrapping_mul(0x5851F42D4C957F2D)))).collect();
    let mut t = Src::new(&data);
    let few = t.range(2, 12);
    let lim = |ops, blocks, block_ops| Limits { ops, blocks, block_ops, none_ops: false };
    match flavour {
        0 => gen_as(&mut t, &lim(size, 1, 6), Some((&[14], &[0, 8, 18])), Some((size, 0)), 0),
        1 => gen_as(&mut t, &lim(size, 1, 6), Some((&[8, 9, 8, 9, 8, 9, 14, 0], &[8, 18])), Some((size, few % 2)), 0),
        2 => gen_as(&mut t, &lim(size / 2, 1, 6), Some((&[0, 3, 4, 6, 12], &[0])), Some((size / 2, few % 2)), 0),
        3 => gen_as(&mut t, &lim(8, 1, size), Some((&[14, 0], &[8, 9, 18, 19])), Some((few, 1)), 0),
        4 => gen_as(&mut t, &lim(8, size, 2), Some((&[14, 0], &[14, 8, 18])), Some((few, size)), 0),
        5 => gen_as(&mut t, &lim(8, 1, size), Some((&[14, 0], &[14, 15, 16, 18])), Some((few, 1)), 0),
        _ => gen_as(&mut t, &lim(12, 1, 6), Some((&[14, 14, 0, 8], &[8, 0])), Some((few + 4, few % 2)), size),
    }
}

fn gen_as(
    s: &mut Src,
    lim: &Limits,
    only: Option<(&'static [usize], &'static [usize])>,
    counts: Option<(usize, usize)>,
    long_lc: usize,
) -> Prog {
    let label = s.below(LABELS.len());
    let nprior = if s.chance(1, 4) { s.range(1, 2) } else { 0 };
    let prior = (0..nprior).map(|_| vec![s.below(256) as u8; s.below(5)]).collect();
    let nb = if s.chance(1, 2) { s.range(0, lim.blocks) } else { 0 };
    let k = match s.below(8) {
        0 => s.below(3),
        1 => s.below(lim.ops * 3 + 1),
        _ => s.below(lim.ops + 1),
    };
    let (k, nb) = counts.unwrap_or((k, nb));
    let mut g = G {
        s,
        pool: vec![],
        chals: 0,
        pending: None,
        explicit: 0,
        commits: 0,
        gates: 0,
        nested: 0,
        depth: 0,
        none_ops: lim.none_ops,
        only: only.map(|x| x.0),
        long_lc,
    };
    let mut ops = vec![];
    for _ in 0..k {
        let o = g.op(false);
        ops.push(o);
    }
    let n1 = g.gates;
    let half1 = g.pending.is_some();
    g.pending = None;
    g.only = only.map(|x| x.1);
    let mut blocks = vec![];
    for _ in 0..nb {
        let c = g.s.below(3);
        let mut b = vec![];
        for _ in 0..c {
            let l = g.s.below(CH_LABELS.len());
            g.chals += 1;
            b.push(Op::Challenge(l));
        }
        let k = if counts.is_some() { lim.block_ops } else { g.s.below(lim.block_ops + 1) };
        for _ in 0..k {
            let o = g.op(true);
            b.push(o);
        }
        blocks.push(Op::Rand(Rc::new(b)));
    }
    let half2 = g.pending.is_some();
    let n2 = g.gates - n1;
    let (explicit, commits, nested) = (g.explicit, g.commits, g.nested);
    // blocks are registered at random places of the first phase, in order
    let mut at: Vec<usize> = (0..nb).map(|_| g.s.below(ops.len() + 1)).collect();
    at.sort();
    for (k, (p, b)) in at.into_iter().zip(blocks.into_iter()).enumerate() {
        ops.insert(p + k, b);
    }
    Prog {
        label,
        prior,
        ops,
        commits,
        n1,
        n2,
        explicit,
        blocks: nb,
        nested,
        half1,
        half2,
    }
}

impl Prog {
    pub fn gates(&self) -> usize {
        self.n1 + self.n2
    }
    pub fn padded(&self) -> usize {
        self.gates().next_power_of_two()
    }
    pub fn transcript(&self) -> merlin::Transcript {
        let mut t = merlin::Transcript::new(LABELS[self.label]);
        for p in self.prior.iter() {
            t.append_message(b"prior", p);
        }
        t
    }
    pub fn desc(&self) -> String {
        format!(
            "commits={} gates={}+{} explicit={} blocks={} nested={} half={}{} label={} prior={} ops=[{}]",
            self.commits,
            self.n1,
            self.n2,
            self.explicit,
            self.blocks,
            self.nested,
            self.half1 as u8,
            self.half2 as u8,
            self.label,
            self.prior.len(),
            {
                let t = self.ops.iter().map(short).collect::<Vec<_>>().join(" ");
                if t.len() > 1500 { format!("{} ...", t.chars().take(1500).collect::<String>()) } else { t }
            }
        )
    }
}

fn short(o: &Op) -> String {
    match o {
        Op::Commit(..) => "C".into(),
        Op::Mult(l, r) => format!("M{},{}", l.len(), r.len()),
        Op::AllocMult(..) => "AM".into(),
        Op::Alloc(..) => "A".into(),
        Op::AllocSingle(..) => "S".into(),
        Op::ConstrainTo(l, _) => format!("={}", l.len()),
        Op::ConstrainSlack(l) => format!("~{}", l.len()),
        Op::ConstrainBatch(t) => format!("B{}", t.len()),
        Op::Eval(l) => format!("E{}", l.len()),
        Op::AllocNone(k) => format!("N{}", k),
        Op::Challenge(_) => "ch".into(),
        Op::Rand(b) => format!("{{{}}}", b.iter().map(short).collect::<Vec<_>>().join(" ")),
    }
}

/// State of one interpretation
#[derive(Default)]
pub struct St {
    pub vars: Vec<Variable>,
    pub chals: Vec<Fe>,
    pub evals: Vec<Option<Fe>>,
    pub explicit: usize,
    pub log: Vec<String>,
    pub err: Option<String>,
    /// add a constant to the k-th explicit constraint
    pub shift: Vec<(usize, Fe)>,
    /// number of allocations without assignment that were refused
    pub refused: usize,
}

pub type Shared = Rc<RefCell<St>>;

pub fn shared(shift: &[(usize, Fe)]) -> Shared {
    Rc::new(RefCell::new(St {
        shift: shift.to_vec(),
        ..St::default()
    }))
}

fn build(lc: &Lc, st: &St) -> LinearCombination {
    lc.iter()
        .map(|(r, c)| {
            let v = match r {
                Ref::One => Variable::One(),
                Ref::Var(i) => st.vars[*i],
            };
            let k = match c {
                Coef::K(k) => k.clone(),
                Coef::Ch(i, k) => &st.chals[*i] * k,
            };
            (v, k)
        })
        .collect()
}

fn value<CS: ConstraintSystem>(cs: &CS, v: &Val, st: &St) -> Option<Fe> {
    match v {
        // the verifier gets no values
        Val::K(k) => cs.evaluate_lc(&LinearCombination::from(k.clone())),
        Val::Eval(lc) => cs.evaluate_lc(&build(lc, st)),
    }
}

/// Everything except commitments, challenges and blocks
fn step<CS: ConstraintSystem>(cs: &mut CS, op: &Op, sh: &Shared) -> Result<(), R1CSError> {
    let mut st = sh.borrow_mut();
    let shift = |st: &mut St| -> LinearCombination {
        let k = st.explicit;
        st.explicit += 1;
        let mut lc = LinearCombination::default();
        for (i, d) in st.shift.iter() {
            if *i == k {
                lc = lc + LinearCombination::from(d.clone());
            }
        }
        lc
    };
    match op {
        Op::Mult(l, r) => {
            let (l, r) = (build(l, &st), build(r, &st));
            let (a, b, c) = cs.multiply(l, r);
            st.vars.extend(vec![a, b, c]);
        }
        Op::AllocMult(l, r) => {
            let x = value(cs, l, &st).and_then(|a| value(cs, r, &st).map(|b| (a, b)));
            let (a, b, c) = cs.allocate_multiplier(x)?;
            st.vars.extend(vec![a, b, c]);
        }
        Op::Alloc(v) => {
            let x = value(cs, v, &st);
            let a = cs.allocate(x)?;
            st.vars.push(a);
        }
        Op::AllocSingle(v) => {
            let x = value(cs, v, &st);
            let (a, o) = cs.allocate_single(x)?;
            st.vars.push(a);
            if let Some(o) = o {
                st.vars.push(o);
            }
        }
        Op::ConstrainTo(lc, k) => {
            let mut l = build(lc, &st);
            // without a constant the combination may have no terms at all
            if !k.is_zero() {
                l = l - LinearCombination::from(k.clone());
            }
            let d = shift(&mut st);
            if !d.terms.is_empty() {
                l = l + d;
            }
            cs.constrain(l);
        }
        Op::ConstrainSlack(lc) => {
            let l = build(lc, &st);
            let x = cs.evaluate_lc(&l);
            let a = cs.allocate(x)?;
            st.vars.push(a);
            let l = l - a + shift(&mut st);
            cs.constrain(l);
        }
        Op::ConstrainBatch(ts) => {
            let mut acc = LinearCombination::default();
            for (c, lc, k) in ts {
                let d = build(lc, &st) - LinearCombination::from(k.clone());
                acc = acc + (&st.chals[*c] * d);
            }
            let acc = acc + shift(&mut st);
            cs.constrain(acc);
        }
        Op::Eval(lc) => {
            let l = build(lc, &st);
            let e = cs.evaluate_lc(&l);
            st.evals.push(e);
        }
        Op::AllocNone(k) => {
            if cs.evaluate_lc(&LinearCombination::default()).is_none() {
                return Ok(());
            }
            let r = match k {
                0 => cs.allocate(None).map(|_| ()),
                1 => cs.allocate_single(None).map(|_| ()),
                _ => cs.allocate_multiplier(None).map(|_| ()),
            };
            match r {
                Err(R1CSError::MissingAssignment { .. }) => st.refused += 1,
                Err(e) => st.err = Some(format!("allocation without a value gave {:?}", e)),
                Ok(()) => st.err = Some("allocation without a value was accepted".into()),
            }
        }
        _ => unreachable!(),
    }
    Ok(())
}

fn block<R: RandomizedConstraintSystem>(
    cs: &mut R,
    ops: &Rc<Vec<Op>>,
    sh: &Shared,
) -> Result<(), R1CSError> {
    for op in ops.iter() {
        match op {
            Op::Challenge(l) => {
                let c = cs.challenge_scalar(CH_LABELS[*l]);
                sh.borrow_mut().chals.push(c);
            }
            Op::Rand(b) => {
                let (b, sh2) = (b.clone(), sh.clone());
                let before = sh.borrow().log.len();
                sh.borrow_mut().log.push("block".into());
                cs.specify_randomized_constraints(move |c| {
                    sh2.borrow_mut().log.push("run".into());
                    block(c, &b, &sh2)
                })?;
                // in the second phase the callback runs before the call returns
                let st = sh.borrow();
                if st.log.len() < before + 2 || st.log[before + 1] != "run" {
                    drop(st);
                    sh.borrow_mut().err =
                        Some("nested randomised block was not run at once".into());
                }
            }
            _ => step(cs, op, sh)?,
        }
    }
    Ok(())
}

pub fn run<CS: ConstraintSystem>(
    cs: &mut CS,
    prog: &Prog,
    sh: &Shared,
    commit: &mut dyn FnMut(&mut CS, usize, &Fe, &Fe) -> Variable,
) -> Result<(), R1CSError> {
    let mut k = 0;
    for op in prog.ops.iter() {
        match op {
            Op::Commit(v, b) => {
                let var = commit(cs, k, v, b);
                k += 1;
                sh.borrow_mut().vars.push(var);
            }
            Op::Rand(b) => {
                let (b, sh2) = (b.clone(), sh.clone());
                let before = sh.borrow().chals.len() + sh.borrow().vars.len();
                cs.specify_randomized_constraints(move |c| block(c, &b, &sh2))?;
                if sh.borrow().chals.len() + sh.borrow().vars.len() != before {
                    sh.borrow_mut().err = Some("first-phase callback ran too early".into());
                }
            }
            _ => step(cs, op, sh)?,
        }
    }
    Ok(())
}

/// Reference run in proving mode, up to the end of the first phase
pub fn ref_cs(prog: &Prog, sh: &Shared, gs: &crate::refcs::Gens) -> RefCS {
    let mut cs = RefCS::new(prog.transcript(), true);
    run(&mut cs, prog, sh, &mut |c: &mut RefCS, _, v, b| c.commit_value(gs, v, b))
        .expect("reference run");
    cs
}

pub fn same_opt(a: &Option<Fe>, b: &Option<Fe>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => feq(a, b),
        (None, None) => true,
        _ => false,
    }
}
