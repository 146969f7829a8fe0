//! Search for assignments of the auxiliary variables that satisfy the constraints a verifier holds.
//! Propagation through linear constraints and gates, sparse elimination when stuck, randomised
//! branching guided by hint assignments. Finding nothing proves nothing (unless no branching was
//! needed); what is found is confirmed with a real proof by the caller.

use crate::refcs::{feq, Fe};
use crate::src::{fe_seed, mix};
use bulletproofs_amcl::r1cs::{LinearCombination, Variable};
use std::collections::{BTreeMap, HashMap};

pub struct Sys {
    pub m: usize,
    pub n: usize,
    pub nv: usize,
    pub cons: Vec<(Vec<(usize, Fe)>, Fe)>,
    occ: Vec<Vec<(usize, usize)>>,
    pub param: Option<usize>,
}

pub fn idx(m: usize, v: &Variable) -> Option<usize> {
    match v {
        Variable::Committed(i) => Some(*i),
        Variable::MultiplierLeft(i) => Some(m + 3 * i),
        Variable::MultiplierRight(i) => Some(m + 3 * i + 1),
        Variable::MultiplierOutput(i) => Some(m + 3 * i + 2),
        Variable::One() => None,
    }
}

fn flat(m: usize, lc: &LinearCombination) -> (BTreeMap<usize, Fe>, Fe) {
    let mut t: BTreeMap<usize, Fe> = BTreeMap::new();
    let mut k = Fe::zero();
    for (v, c) in lc.terms.iter() {
        match idx(m, v) {
            Some(i) => {
                let e = t.entry(i).or_insert_with(Fe::zero);
                *e = &*e + c;
            }
            None => k = &k + c,
        }
    }
    let t = t.into_iter().filter(|(_, c)| !c.is_zero()).collect();
    (t, k)
}

impl Sys {
    /// `other`: the constraints of the same statement with its public result increased by one; what
    /// differs in the constants makes the result a variable (the offset to the present result).
    pub fn new(m: usize, n: usize, cons: &[LinearCombination], other: Option<&[LinearCombination]>) -> Sys {
        let mut nv = m + 3 * n;
        let mut param = None;
        let mut rows: Vec<(BTreeMap<usize, Fe>, Fe)> = cons.iter().map(|c| flat(m, c)).collect();
        if let Some(o) = other {
            if o.len() == cons.len() {
                for (r, c) in rows.iter_mut().zip(o.iter()) {
                    let (t2, k2) = flat(m, c);
                    let same = t2.len() == r.0.len()
                        && t2.iter().zip(r.0.iter()).all(|((i, a), (j, b))| i == j && feq(a, b));
                    let d = &k2 - &r.1;
                    if same && !d.is_zero() {
                        r.0.insert(nv, d);
                        param = Some(nv);
                    }
                }
            }
            if param.is_some() {
                nv += 1;
            }
        }
        let cons: Vec<(Vec<(usize, Fe)>, Fe)> = rows.into_iter().map(|(t, k)| (t.into_iter().collect(), k)).collect();
        let mut occ = vec![vec![]; nv];
        for (ci, (t, _)) in cons.iter().enumerate() {
            for (ti, (v, _)) in t.iter().enumerate() {
                occ[*v].push((ci, ti));
            }
        }
        Sys { m, n, nv, cons, occ, param }
    }

    pub fn satisfied(&self, x: &[Fe]) -> bool {
        for i in 0..self.n {
            let b = self.m + 3 * i;
            if !feq(&(&x[b] * &x[b + 1]), &x[b + 2]) {
                return false;
            }
        }
        self.cons.iter().all(|(t, k)| {
            let mut s = k.clone();
            for (v, c) in t {
                s = &s + &(c * &x[*v]);
            }
            s.is_zero()
        })
    }
}

#[derive(Clone)]
struct St<'a> {
    s: &'a Sys,
    v: Vec<Option<Fe>>,
    uc: Vec<usize>,
    acc: Vec<Fe>,
    qc: Vec<usize>,
    qg: Vec<usize>,
    unknown: usize,
}

struct Conflict;

impl<'a> St<'a> {
    fn new(s: &'a Sys) -> St<'a> {
        St {
            s,
            v: vec![None; s.nv],
            uc: s.cons.iter().map(|c| c.0.len()).collect(),
            acc: s.cons.iter().map(|c| c.1.clone()).collect(),
            qc: (0..s.cons.len()).filter(|i| s.cons[*i].0.len() <= 1).collect(),
            qg: vec![],
            unknown: s.nv,
        }
    }
    fn set(&mut self, i: usize, x: Fe) -> Result<(), Conflict> {
        if let Some(o) = &self.v[i] {
            return if feq(o, &x) { Ok(()) } else { Err(Conflict) };
        }
        for (ci, ti) in self.s.occ[i].iter() {
            let c = &self.s.cons[*ci].0[*ti].1;
            self.acc[*ci] = &self.acc[*ci] + &(c * &x);
            self.uc[*ci] -= 1;
            if self.uc[*ci] <= 1 {
                self.qc.push(*ci);
            }
        }
        self.v[i] = Some(x);
        self.unknown -= 1;
        if i >= self.s.m && i < self.s.m + 3 * self.s.n {
            self.qg.push((i - self.s.m) / 3);
        }
        Ok(())
    }
    fn propagate(&mut self) -> Result<(), Conflict> {
        loop {
            if let Some(g) = self.qg.pop() {
                let b = self.s.m + 3 * g;
                let (l, r, o) = (self.v[b].clone(), self.v[b + 1].clone(), self.v[b + 2].clone());
                match (l, r, o) {
                    (Some(l), Some(r), _) => self.set(b + 2, &l * &r)?,
                    (Some(k), None, o) | (None, Some(k), o) => {
                        let other = if self.v[b].is_some() { b + 1 } else { b };
                        if k.is_zero() {
                            self.set(b + 2, Fe::zero())?;
                        } else if let Some(o) = o {
                            self.set(other, &o * &k.inverse())?;
                        }
                    }
                    _ => {}
                }
            } else if let Some(c) = self.qc.pop() {
                if self.uc[c] == 0 {
                    if !self.acc[c].is_zero() {
                        return Err(Conflict);
                    }
                } else if self.uc[c] == 1 {
                    let (v, k) = self.s.cons[c].0.iter().find(|(v, _)| self.v[*v].is_none()).unwrap().clone();
                    let x = &self.acc[c].negation() * &k.inverse();
                    self.set(v, x)?;
                }
            } else {
                return Ok(());
            }
        }
    }
    fn linked(&self, a: usize, b: usize) -> bool {
        self.s.occ[a].iter().any(|(c, _)| self.uc[*c] == 2 && self.s.occ[b].iter().any(|(d, _)| d == c))
    }
    /// Eliminate over the open constraints and the gates with one known factor. Returns whether a
    /// variable was determined, and the variables that are free.
    fn eliminate(&mut self, budget: &mut isize) -> Result<(bool, Vec<usize>), Conflict> {
        let mut rows: Vec<(HashMap<usize, Fe>, Fe)> = vec![];
        for (c, (t, _)) in self.s.cons.iter().enumerate() {
            if self.uc[c] >= 2 {
                let m: HashMap<usize, Fe> =
                    t.iter().filter(|(v, _)| self.v[*v].is_none()).map(|(v, k)| (*v, k.clone())).collect();
                rows.push((m, self.acc[c].clone()));
            }
        }
        for g in 0..self.s.n {
            let b = self.s.m + 3 * g;
            if self.v[b + 2].is_some() {
                continue;
            }
            let (k, other) = match (&self.v[b], &self.v[b + 1]) {
                (Some(k), None) => (k.clone(), b + 1),
                (None, Some(k)) => (k.clone(), b),
                _ => continue,
            };
            let mut m = HashMap::new();
            m.insert(other, k);
            m.insert(b + 2, Fe::minus_one());
            rows.push((m, Fe::zero()));
        }
        rows.sort_by_key(|r| r.0.len());
        let mut pivots: Vec<(usize, HashMap<usize, Fe>, Fe)> = vec![];
        let mut piv_of: HashMap<usize, usize> = HashMap::new();
        for (mut m, mut k) in rows {
            // reduce by the pivots so far
            loop {
                let hit = m.keys().find(|v| piv_of.contains_key(v)).cloned();
                let p = match hit {
                    Some(p) => p,
                    None => break,
                };
                let f = m.remove(&p).unwrap();
                let (_, pr, pk) = &pivots[piv_of[&p]];
                *budget -= pr.len() as isize + 1;
                for (v, c) in pr.iter() {
                    let e = m.entry(*v).or_insert_with(Fe::zero);
                    *e = &*e - &(&f * c);
                    if e.is_zero() {
                        m.remove(v);
                    }
                }
                k = &k - &(&f * pk);
                if *budget < 0 {
                    return Ok((false, vec![]));
                }
            }
            if m.is_empty() {
                if !k.is_zero() {
                    return Err(Conflict);
                }
                continue;
            }
            // pivot: any variable but the result, if possible
            let mut ks: Vec<usize> = m.keys().cloned().collect();
            ks.sort();
            let p = *ks.iter().rev().find(|v| Some(**v) != self.s.param).unwrap_or(&ks[0]);
            let f = m.remove(&p).unwrap().inverse();
            for c in m.values_mut() {
                *c = &*c * &f;
            }
            k = &k * &f;
            // keep the earlier pivots reduced
            for (_, pr, pk) in pivots.iter_mut() {
                if let Some(c) = pr.remove(&p) {
                    *budget -= m.len() as isize + 1;
                    for (v, d) in m.iter() {
                        let e = pr.entry(*v).or_insert_with(Fe::zero);
                        *e = &*e - &(&c * d);
                        if e.is_zero() {
                            pr.remove(v);
                        }
                    }
                    *pk = &*pk - &(&c * &k);
                }
            }
            piv_of.insert(p, pivots.len());
            pivots.push((p, m, k));
        }
        let mut any = false;
        let mut free: Vec<usize> = vec![];
        for (p, m, k) in pivots.iter() {
            if m.is_empty() {
                any = true;
                self.set(*p, k.negation())?;
            } else {
                free.extend(m.keys().cloned());
            }
        }
        free.sort();
        free.dedup();
        Ok((any, free))
    }
}

/// Deviations from a satisfying assignment: every variable that the fixed ones do not determine is set
/// to something else, the rest is completed from the assignment in random order.
fn deviate(s: &Sys, fixed: &[(usize, Fe)], h: &[Fe], rn: &mut Rn, tries: usize, accept: &dyn Fn(&[Fe]) -> bool) -> (Option<Vec<Fe>>, usize) {
    let mut base = St::new(s);
    for (i, x) in fixed {
        if base.set(*i, x.clone()).is_err() {
            return (None, 0);
        }
    }
    if base.propagate().is_err() {
        return (None, 0);
    }
    // what has to be chosen, in circuit order
    let mut cand: Vec<usize> = vec![];
    let mut st = base.clone();
    for v in s.m..s.m + 3 * s.n {
        if st.v[v].is_none() {
            cand.push(v);
            if st.set(v, h[v].clone()).is_err() || st.propagate().is_err() {
                return (None, 0);
            }
        }
    }
    // and what looks like a choice: both sides of a gate linked by one constraint
    for g in 0..s.n {
        let b = s.m + 3 * g;
        if base.v[b].is_none() && base.v[b + 1].is_none() && base.linked(b, b + 1) && !cand.contains(&b) {
            cand.push(b);
        }
    }
    let mut n = 0;
    let mut soft = vec![];
    for v in cand.iter() {
        let mut t = base.clone();
        n += 1;
        if t.set(*v, fe_seed(rn.u())).is_ok() && t.propagate().is_ok() {
            soft.push(*v);
        }
    }
    if soft.is_empty() {
        return (None, n);
    }
    for k in 0..tries {
        let d = if k < soft.len() { soft[k] } else { soft[rn.below(soft.len())] };
        let mut order = cand.clone();
        for i in (1..order.len()).rev() {
            order.swap(i, rn.below(i + 1));
        }
        if k % 3 == 0 {
            order.sort();
        }
        let mut t = base.clone();
        n += 1;
        let x = match rn.below(4) {
            0 => &h[d] + &Fe::one(),
            1 => &Fe::one() - &h[d],
            _ => fe_seed(rn.u()),
        };
        if feq(&x, &h[d]) || t.set(d, x).is_err() || t.propagate().is_err() {
            continue;
        }
        let r = (|| -> Result<(), Conflict> {
            for v in order.iter().cloned().chain(s.m..s.nv) {
                if t.v[v].is_none() {
                    t.set(v, h[v].clone())?;
                    t.propagate()?;
                }
            }
            Ok(())
        })();
        if r.is_ok() && t.unknown == 0 {
            let x: Vec<Fe> = t.v.iter().map(|v| v.clone().unwrap()).collect();
            if s.satisfied(&x) && accept(&x) {
                return (Some(x), n);
            }
        }
    }
    (None, n)
}

pub struct Outcome {
    pub found: Option<Vec<Fe>>,
    /// the search space was exhausted without branching
    pub definitive: bool,
    pub attempts: usize,
}

struct Rn(u64);
impl Rn {
    fn u(&mut self) -> u64 {
        self.0 = mix(self.0);
        self.0
    }
    fn below(&mut self, n: usize) -> usize {
        (self.u() % n as u64) as usize
    }
    fn p(&mut self, x: f64) -> bool {
        (self.u() >> 11) as f64 / ((1u64 << 53) as f64) < x
    }
}

/// `fixed`: variables with given values. `hints`: plausible full assignments.
pub fn solve(
    s: &Sys,
    fixed: &[(usize, Fe)],
    hints: &[Vec<Fe>],
    seed: u64,
    max_attempts: usize,
    accept: &dyn Fn(&[Fe]) -> bool,
) -> Outcome {
    let mut rn = Rn(seed);
    // the hints themselves
    for h in hints {
        if h.len() == s.nv && fixed.iter().all(|(i, x)| feq(&h[*i], x)) && s.satisfied(h) && accept(h) {
            return Outcome { found: Some(h.clone()), definitive: false, attempts: 0 };
        }
    }
    let mut extra = 0;
    for h in hints {
        if h.len() != s.nv || fixed.iter().any(|(i, x)| !feq(&h[*i], x)) {
            continue;
        }
        let mut h = h.clone();
        if let Some(p) = s.param {
            // the result that belongs to this assignment
            if let Some((ci, ti)) = s.occ[p].get(0) {
                let (t, k) = &s.cons[*ci];
                let mut a = k.clone();
                for (v, c) in t {
                    if *v != p {
                        a = &a + &(c * &h[*v]);
                    }
                }
                h[p] = &a.negation() * &t[*ti].1.inverse();
            }
        }
        if !s.satisfied(&h) {
            continue;
        }
        let (found, n) = deviate(s, fixed, &h, &mut rn, 10 * max_attempts, accept);
        extra += n;
        if found.is_some() {
            return Outcome { found, definitive: false, attempts: extra };
        }
    }
    let mut budget: isize = 400_000;
    let trail = std::env::var("VERIF_SOLVER").is_ok();
    for attempt in 0..max_attempts {
        let fid = [1.0, 1.0, 0.0, 0.97, 0.9, 0.5, 1.0, 0.8][attempt % 8];
        let hint = if hints.is_empty() { None } else { Some(&hints[if attempt == 0 { 0 } else { rn.below(hints.len()) }]) };
        let mut st = St::new(s);
        let mut branched = false;
        let r = (|| -> Result<(), Conflict> {
            for (i, x) in fixed {
                st.set(*i, x.clone())?;
            }
            loop {
                st.propagate()?;
                if st.unknown == 0 {
                    return Ok(());
                }
                // zero products
                let mut zs: Vec<(usize, bool)> = vec![];
                for g in 0..s.n {
                    let b = s.m + 3 * g;
                    if st.v[b].is_none() && st.v[b + 1].is_none() {
                        if let Some(o) = &st.v[b + 2] {
                            if o.is_zero() {
                                zs.push((b, st.linked(b, b + 1)));
                            }
                        }
                    }
                }
                let linked: Vec<usize> = zs.iter().filter(|z| z.1).map(|z| z.0).collect();
                let pickz = if !linked.is_empty() {
                    Some(linked[rn.below(linked.len())])
                } else if !zs.is_empty() {
                    Some(zs[rn.below(zs.len())].0)
                } else {
                    None
                };
                if let Some(b) = pickz {
                    branched = true;
                    let mut left = rn.p(0.5);
                    if !linked.is_empty() {
                        if let Some(h) = hint {
                            if rn.p(fid) && h[b].is_zero() != h[b + 1].is_zero() {
                                left = h[b].is_zero();
                            }
                        }
                    }
                    st.set(if left { b } else { b + 1 }, Fe::zero())?;
                    continue;
                }
                let (any, free) = st.eliminate(&mut budget)?;
                if budget < 0 {
                    return Err(Conflict);
                }
                if any {
                    continue;
                }
                branched = true;
                // free variable of the linear part, or any open variable
                let mut cand: Vec<usize> = free.into_iter().filter(|v| Some(*v) != s.param && st.v[*v].is_none()).collect();
                if cand.is_empty() {
                    cand = (0..s.nv).filter(|v| Some(*v) != s.param && st.v[*v].is_none()).collect();
                }
                let v = if cand.is_empty() { s.param.unwrap() } else { cand[rn.below(cand.len())] };
                let x = match hint {
                    Some(h) if rn.p(0.3 * fid) => h[v].clone(),
                    _ => match rn.below(6) {
                        0 => Fe::zero(),
                        1 => Fe::one(),
                        2 => Fe::minus_one(),
                        _ => fe_seed(rn.u()),
                    },
                };
                st.set(v, x)?;
            }
        })();
        let ok = r.is_ok();
        if ok {
            let x: Vec<Fe> = st.v.iter().map(|v| v.clone().unwrap()).collect();
            if s.satisfied(&x) && accept(&x) {
                return Outcome { found: Some(x), definitive: false, attempts: extra + attempt + 1 };
            }
        }
        if trail {
            eprintln!("attempt {} ok={} branched={} unknown={} budget={}", attempt, ok, branched, st.unknown, budget);
        }
        if !branched {
            return Outcome { found: None, definitive: true, attempts: extra + attempt + 1 };
        }
        if budget < 0 {
            return Outcome { found: None, definitive: false, attempts: extra + attempt + 1 };
        }
    }
    Outcome { found: None, definitive: false, attempts: extra + max_attempts }
}
