//! P05, P06, P07, P09, P10

use crate::core::*;
use crate::fw::*;
use crate::prog::{gen, gen_wide, ref_cs, shared, Limits, Prog};
use crate::refcs::*;
use crate::src::{fe, Src};
use amcl_wrapper::field_elem::FieldElementVector;
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::ipp::{InnerProductArgumentProof, IPP};
use bulletproofs_amcl::r1cs::{LinearCombination, R1CSProof, Variable};
use bulletproofs_amcl::utils::vector_poly::{Poly2, Poly6, VecPoly1, VecPoly3};
use merlin::Transcript;
use serde_json::Value;
use std::collections::HashMap;
use std::sync::OnceLock;

const TINY: Limits = Limits { ops: 6, blocks: 2, block_ops: 4, none_ops: false };
const SMALL: Limits = Limits { ops: 12, blocks: 2, block_ops: 6, none_ops: false };

// ---------------------------------------------------------------- P05

fn base() -> G1 {
    G1::generator()
}

/// small multiples of the base point, by encoding
fn small_table() -> &'static HashMap<Vec<u8>, u64> {
    static T: OnceLock<HashMap<Vec<u8>, u64>> = OnceLock::new();
    T.get_or_init(|| {
        let mut m = HashMap::new();
        let mut p = base();
        for k in 1..=1024u64 {
            m.insert(p.to_bytes(), k);
            p = &p + &base();
        }
        m
    })
}

/// The multiplier if the point is a small multiple of the base (of either sign)
pub fn small_multiple(p: &G1) -> Option<i64> {
    if p.is_identity() {
        return Some(0);
    }
    let t = small_table();
    if let Some(k) = t.get(&p.to_bytes()) {
        return Some(*k as i64);
    }
    if let Some(k) = t.get(&p.negation().to_bytes()) {
        return Some(-(*k as i64));
    }
    None
}

/// As above for multipliers up to 2^20, by giant steps
fn medium_multiple(p: &G1) -> bool {
    let step = &base() * &fe(1024);
    for sgn in 0..2 {
        let mut q = if sgn == 0 { p.clone() } else { p.negation() };
        for _ in 0..1024 {
            if small_multiple(&q).is_some() {
                return true;
            }
            q = &q - &step;
        }
    }
    false
}

/// Points a*B with independent unknown a: none is a small multiple, and no two are related by an
/// obvious relation.
pub fn check_fresh(pts: &[(String, G1)]) -> Result<(), String> {
    for (n, p) in pts {
        if let Some(k) = small_multiple(p) {
            return Err(format!("blinding of {} is {}", n, k));
        }
    }
    for i in 0..pts.len() {
        for j in 0..i {
            let (a, b) = (&pts[i].1, &pts[j].1);
            for (what, d) in vec![
                ("difference", a - b),
                ("sum", a + b),
                ("a - 2b", &(a - b) - b),
                ("2a - b", &(a - b) + a),
            ] {
                if let Some(k) = small_multiple(&d) {
                    return Err(format!(
                        "blindings of {} and {} are related: {} is {}",
                        pts[i].0, pts[j].0, what, k
                    ));
                }
            }
        }
    }
    Ok(())
}

fn probe(p: &Prog, h: &G1, gi: &[(usize, char, G1)], n: usize) -> Result<R1CSProof, String> {
    let mut gv = vec![G1::identity(); n];
    let mut hv = vec![G1::identity(); n];
    for (i, side, x) in gi {
        if *side == 'G' {
            gv[*i] = x.clone();
        } else {
            hv[*i] = x.clone();
        }
    }
    let m = no_panic(|| real_prove(p, &[], &G1::identity(), h, &gv.into(), &hv.into()))?
        .map_err(|e| format!("proving over probe generators failed: {:?}", e))?;
    Ok(m.proof)
}

/// h = B and all other generators the identity: every commitment shows its blinding
fn p05_blindings(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &TINY);
    c.case(p.gates() > 0, p.desc());
    c.class(if p.n2 > 0 { "two-phase" } else { "one-phase" });
    let n = p.padded();
    let mut all: Vec<(String, G1)> = vec![];
    let mut scal: Vec<(String, Fe)> = vec![];
    for run in 0..2 {
        let pr = Parts::of(&probe(&p, &base(), &[], n)?);
        for i in 0..11 {
            if (3..6).contains(&i) && p.n2 == 0 {
                continue;
            }
            all.push((format!("{} (run {})", PT_NAMES[i], run), pr.pts[i].clone()));
        }
        for i in 1..3 {
            scal.push((format!("{} (run {})", SC_NAMES[i], run), pr.sc[i].clone()));
        }
    }
    check_fresh(&all)?;
    for i in 0..scal.len() {
        if scal[i].1.is_zero() {
            return Err(format!("{} is zero", scal[i].0));
        }
        for j in 0..i {
            if feq(&scal[i].1, &scal[j].1) {
                return Err(format!("{} equals {}", scal[i].0, scal[j].0));
            }
        }
    }
    Ok(())
}

fn p05_range(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &TINY);
    c.case(true, p.desc());
    let pr = Parts::of(&probe(&p, &base(), &[], p.padded())?);
    for i in 0..11 {
        if (3..6).contains(&i) && p.n2 == 0 {
            continue;
        }
        if medium_multiple(&pr.pts[i]) {
            return Err(format!("blinding of {} is below 2^20", PT_NAMES[i]));
        }
    }
    Ok(())
}

/// Entries of the blinding vectors, one position or a pair of positions at a time
fn p05_vectors(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, if s.peek() % 4 == 0 { &SMALL } else { &TINY });
    p05_vectors_with(&p, s, c)
}
fn p05_vectors_wide(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    if s.chance(1, 4) {
        let p = gen_wide(s);
        return p05_vectors_with(&p, s, c);
    }
    // gates only, in one or both phases
    let n = match s.below(3) {
        0 => s.range(40, 130),
        1 => s.range(130, 300),
        _ => s.range(257, 530),
    };
    let n2 = if s.chance(1, 2) { 0 } else { s.range(1, n) };
    let gate = |i: usize| crate::prog::Op::AllocMult(crate::prog::Val::K(fe((i % 3) as u64)), crate::prog::Val::K(fe(i as u64)));
    let mut ops: Vec<_> = (0..n - n2).map(|i| gate(i)).collect();
    if n2 > 0 {
        ops.push(crate::prog::Op::Rand(std::rc::Rc::new((n - n2..n).map(|i| gate(i)).collect())));
    }
    let p = Prog {
        label: 0,
        prior: vec![],
        ops,
        commits: 0,
        n1: n - n2,
        n2,
        explicit: 0,
        blocks: (n2 > 0) as usize,
        nested: 0,
        half1: false,
        half2: false,
    };
    p05_vectors_with(&p, s, c)
}
fn p05_vectors_with(p: &Prog, s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let n = p.gates();
    if n == 0 {
        c.case(false, p.desc());
        return Ok(());
    }
    let id = G1::identity();
    let pick = |s: &mut Src| -> (usize, char) { {
        let i = match s.below(6) {
            0 => n - 1,
            1 => p.n1.min(n - 1),
            2 => p.n1.max(1) - 1,
            _ => s.below(n),
        };
        (i, *s.pick(&['G', 'H']))
    } };
    let at = |q: &R1CSProof, i: usize| -> G1 {
        let pr = Parts::of(q);
        if i < p.n1 {
            pr.pts[2].clone()
        } else {
            pr.pts[5].clone()
        }
    };
    let mut done = vec![];
    // single positions, two runs
    let a = pick(s);
    let x = at(&probe(p, &id, &[(a.0, a.1, base())], p.padded())?, a.0);
    let y = at(&probe(p, &id, &[(a.0, a.1, base())], p.padded())?, a.0);
    check_fresh(&[
        (format!("S at {}[{}], first proof", a.1, a.0), x),
        (format!("S at {}[{}], second proof", a.1, a.0), y),
    ])?;
    done.push(format!("{}{}", a.1, a.0));
    // pairs in one proof
    for _ in 0..4 {
        let a = pick(s);
        // vectors filled in blocks repeat after a power of two
        let strided = n > 4 && s.chance(1, 2);
        let b = if strided {
            let mut d = 1usize << s.range(0, 10);
            while d >= n {
                d /= 2;
            }
            (if a.0 >= d { a.0 - d } else { a.0 + d }, a.1)
        } else if s.chance(1, 3) {
            (a.0, if a.1 == 'G' { 'H' } else { 'G' })
        } else {
            pick(s)
        };
        if a == b || b.0 >= n {
            continue;
        }
        c.evals += 1;
        let what = format!("S at {}[{}] and {}[{}]", a.1, a.0, b.1, b.0);
        if (a.0 < p.n1) == (b.0 < p.n1) {
            let w = match s.below(4) {
                _ if strided => base().negation(),
                0 => base(),
                1 => base() + base(),
                _ => base().negation(),
            };
            let x = at(&probe(p, &id, &[(a.0, a.1, base()), (b.0, b.1, w)], p.padded())?, a.0);
            if let Some(k) = small_multiple(&x) {
                return Err(format!("{} are related (combination is {})", what, k));
            }
        } else {
            let q = probe(p, &id, &[(a.0, a.1, base()), (b.0, b.1, base())], p.padded())?;
            check_fresh(&[(what.clone(), at(&q, a.0)), (what, at(&q, b.0))])?;
            c.class("across phases");
        }
        done.push(format!("{}{}-{}{}", a.1, a.0, b.1, b.0));
    }
    c.case(true, format!("positions {:?} of {}", done, p.desc()));
    Ok(())
}

/// Every position in turn
fn p05_positions(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &SMALL);
    c.case(p.gates() > 0, format!("all positions of {}", p.desc()));
    for i in 0..p.gates() {
        for side in ['G', 'H'].iter() {
            c.evals += 1;
            let q = Parts::of(&probe(&p, &G1::identity(), &[(i, *side, base())], p.padded())?);
            let x = if i < p.n1 { &q.pts[2] } else { &q.pts[5] };
            if let Some(k) = small_multiple(x) {
                return Err(format!("blinding vector entry {}[{}] is {}", side, i, k));
            }
        }
    }
    Ok(())
}

/// Two proofs of one statement with one witness
fn p05_twice(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &SMALL);
    c.case(p.gates() > 0, p.desc());
    let gs = gens(p.padded());
    let mut pts: HashMap<Vec<u8>, String> = HashMap::new();
    let mut scs: HashMap<Vec<u8>, String> = HashMap::new();
    for run in 0..3 {
        let m = no_panic(|| real_prove(&p, &[], &gs.g, &gs.h, &gs.gv, &gs.hv))?
            .map_err(|e| format!("proving failed: {:?}", e))?;
        let q = Parts::of(&m.proof);
        let mut v: Vec<(String, &G1)> = vec![];
        for i in 0..11 {
            if (3..6).contains(&i) && p.n2 == 0 {
                continue;
            }
            v.push((PT_NAMES[i].to_string(), &q.pts[i]));
        }
        if p.gates() > 0 {
            for i in 0..q.l.len() {
                v.push((format!("L[{}]", i), &q.l[i]));
                v.push((format!("R[{}]", i), &q.r[i]));
            }
        }
        for (n, x) in v {
            if let Some(o) = pts.insert(x.to_bytes(), format!("{} (run {})", n, run)) {
                return Err(format!("{} (run {}) equals {}", n, run, o));
            }
        }
        let mut v: Vec<(&str, &Fe)> = vec![("t_x_blinding", &q.sc[1]), ("e_blinding", &q.sc[2])];
        if p.gates() > 0 {
            v.push(("t_x", &q.sc[0]));
            v.push(("a", &q.a));
            v.push(("b", &q.b));
        }
        for (n, x) in v {
            if x.is_zero() {
                return Err(format!("{} is zero", n));
            }
            if let Some(o) = scs.insert(x.to_bytes(), format!("{} (run {})", n, run)) {
                return Err(format!("{} (run {}) equals {}", n, run, o));
            }
        }
    }
    Ok(())
}

pub fn p05_subs() -> Vec<Sub> {
    vec![
        Sub { name: "blindings", f: p05_blindings, quick: 120, thorough: 3000, len: 200, fixed: vec![] },
        Sub { name: "range", f: p05_range, quick: 6, thorough: 60, len: 200, fixed: vec![] },
        Sub { name: "vectors", f: p05_vectors, quick: 250, thorough: 6000, len: 400, fixed: vec![] },
            Sub { name: "vectors-wide", f: p05_vectors_wide, quick: 24, thorough: 400, len: 60, fixed: vec![] },
        Sub { name: "positions", f: p05_positions, quick: 40, thorough: 800, len: 400, fixed: vec![] },
        Sub { name: "twice", f: p05_twice, quick: 120, thorough: 3000, len: 400, fixed: vec![] },
    ]
}

// ---------------------------------------------------------------- P06

const TORSION: [(&str, &str, &str); 4] = [
    ("order 3", "000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000", "000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000002"),
    ("outside the subgroup", "000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000005", "0d3c6da1211ebe797bc0790f1e6e7d669b180a8e59196825506d2bb2185f53715df092c8a7ceb64843ea7df67dbad60d"),
    ("order 11", "00d1d1ffc09ffab044764f30fc9a110ca90d1d61505636cedbd76e024f03b4e562dd6beaa4b5b5435f020bcad67a1c12", "181ba72023d0aeb34ea28d703c7700ecb75d9ff01da3380088e2a24da43d2b0a79bd62f1a4558154f265fd378a1ef8a4"),
    ("order 10177", "145cff5946df71d04ca3b740f66ecdc3f29cee6d072dceb96a2e6e1d2b37638877faff39c11c0f0f0d258964d32a6e27", "158bd2a869586a96b3d1f41f4ab2788b3c5a017b5db2f8aba1972316d9b8929ff1391756c02a43454a76764f168d74c8"),
];

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn torsion(k: usize) -> G1 {
    let mut b = vec![4u8];
    b.extend(unhex(TORSION[k].1));
    b.extend(unhex(TORSION[k].2));
    let p = G1::from_bytes(&b).expect("point");
    assert!(!p.is_identity(), "torsion point must be on the curve");
    p
}

/// JSON of something that is not an element of the group, made from a valid point
pub fn bad_point(s: &mut Src, p: &G1) -> (Value, String) {
    let js = serde_json::to_value(p).unwrap();
    let text = js.as_str().unwrap_or("").to_string();
    let mut w: Vec<String> = text.split_whitespace().map(|x| x.to_string()).collect();
    let zero = "0".repeat(96);
    match s.below(9) {
        0 => {
            for i in [1usize, 3, 5].iter() {
                w[*i] = zero.clone();
            }
            (Value::String(w.join(" ")), "all coordinates 0".into())
        }
        1 => {
            // x := y
            w[1] = w[3].clone();
            if p.is_identity() {
                w[5] = w[3].clone();
            }
            (Value::String(w.join(" ")), "x replaced by y".into())
        }
        2 => {
            w[3] = zero.clone();
            if p.is_identity() {
                w[1] = zero;
            }
            (Value::String(w.join(" ")), "y replaced by 0".into())
        }
        3 => {
            // one digit of x
            let mut d: Vec<u8> = w[1].bytes().collect();
            if d.is_empty() || p.is_identity() {
                for i in [1usize, 3, 5].iter() {
                    w[*i] = zero.clone();
                }
                return (Value::String(w.join(" ")), "all coordinates 0".into());
            }
            let k = d.len() - 1 - s.below(d.len().min(80));
            d[k] = if d[k] == b'1' { b'2' } else { b'1' };
            w[1] = String::from_utf8(d).unwrap();
            (Value::String(w.join(" ")), "digit of x changed".into())
        }
        4 => {
            if p.is_identity() {
                for i in [1usize, 3, 5].iter() {
                    w[*i] = zero.clone();
                }
                return (Value::String(w.join(" ")), "all coordinates 0".into());
            }
            let k = 1 + 2 * s.below(2);
            w[k] = "f".repeat(90);
            (Value::String(w.join(" ")), "coordinate replaced by a huge value".into())
        }
        5..=7 => {
            let k = s.below(4);
            let q = p + torsion(k);
            (serde_json::to_value(&q).unwrap(), format!("plus a point of {}", TORSION[k].0))
        }
        _ => {
            let k = s.below(4);
            (serde_json::to_value(&torsion(k)).unwrap(), format!("a point of {}", TORSION[k].0))
        }
    }
}

fn base_proof(p: &Prog, s: &mut Src, gs: &Gens) -> Result<(Parts, Vec<G1>), String> {
    if s.chance(1, 2) {
        let m = no_panic(|| real_prove(p, &[], &gs.g, &gs.h, &gs.gv, &gs.hv))?
            .map_err(|e| format!("proving failed: {:?}", e))?;
        Ok((Parts::of(&m.proof), m.comms))
    } else {
        let sh = shared(&[]);
        let mut rnd = rng_of(s);
        let mut opts = Opts::default();
        opts.zero_blinding = s.chance(1, 4);
        let rp = ref_prove(ref_cs(p, &sh, gs), gs, &opts, &mut rnd).map_err(|e| format!("{:?}", e))?;
        Ok((rp.parts.clone(), rp.cs.vp.clone()))
    }
}

fn must_reject(
    p: &Prog,
    j: &Value,
    comms: &[G1],
    gs: &Gens,
    what: &str,
    times: usize,
) -> Result<bool, String> {
    // deserialising is the business of the dependency
    let proof = match no_panic(|| proof_from_json(j)) {
        Ok(Ok(p)) => p,
        _ => return Ok(false),
    };
    for _ in 0..times {
        let r = no_panic(|| real_verify(p, &[], comms, &proof, &gs.g, &gs.h, &gs.gv, &gs.hv).0)
            .map_err(|e| format!("verifier crashed on a malformed proof ({}): {}", what, e))?;
        if r.is_ok() {
            return Err(format!("malformed proof accepted ({})", what));
        }
    }
    Ok(true)
}

fn elems(v: &Value) -> Vec<Value> {
    // G1Vector is a struct with a list
    v["elems"].as_array().cloned().unwrap_or_default()
}

fn p06_points(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &TINY);
    let gs = gens(p.padded());
    let (parts, comms) = base_proof(&p, s, gs)?;
    let mut done = vec![];
    for _ in 0..4 {
        let mut j = parts.json();
        let rounds = parts.l.len();
        let i = s.below(11 + 2 * rounds);
        let what;
        if i < 11 {
            let (v, d) = bad_point(s, &parts.pts[i]);
            j[PT_NAMES[i]] = v;
            what = format!("{} {}", PT_NAMES[i], d);
        } else {
            let k = (i - 11) / 2;
            let (side, q) = if i % 2 == 1 { ("L", &parts.l[k]) } else { ("R", &parts.r[k]) };
            let (v, d) = bad_point(s, q);
            j["ipp_proof"][side]["elems"][k] = v;
            what = format!("{}[{}] {}", side, k, d);
        }
        // a second bad point that might cancel
        if s.chance(1, 4) {
            let k = s.below(11);
            let (v, d) = bad_point(s, &parts.pts[k]);
            j[PT_NAMES[k]] = v;
            done.push(format!("and {} {}", PT_NAMES[k], d));
        }
        c.evals += 1;
        if must_reject(&p, &j, &comms, gs, &what, 3)? {
            c.class("deserialised");
        } else {
            c.class("not deserialised");
        }
        done.push(what);
    }
    c.case(true, format!("{:?} on {}", done, p.desc()));
    Ok(())
}

/// All points degenerate at once, commitments degenerate, no matter which statement
fn p06_commitments(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &TINY);
    if p.commits == 0 {
        c.case(false, p.desc());
        return Ok(());
    }
    let gs = gens(p.padded());
    let (parts, comms) = base_proof(&p, s, gs)?;
    let mut bad = comms.clone();
    let k = s.below(bad.len());
    let (v, d) = bad_point(s, &comms[k]);
    let q: G1 = match no_panic(|| serde_json::from_value(v)) {
        Ok(Ok(q)) => q,
        _ => return Ok(()),
    };
    bad[k] = q;
    c.case(true, format!("commitment {} {} on {}", k, d, p.desc()));
    must_reject(&p, &parts.json(), &bad, gs, &format!("commitment {}", d), 3)?;
    // a proof made to match: everything degenerate
    if s.chance(1, 2) {
        let z = {
            let t = serde_json::to_value(&gs.g).unwrap();
            let mut w: Vec<String> =
                t.as_str().unwrap_or("").split_whitespace().map(|x| x.to_string()).collect();
            for i in [1usize, 3, 5].iter() {
                w[*i] = "0".repeat(96);
            }
            Value::String(w.join(" "))
        };
        let mut j = parts.json();
        let k = s.below(11);
        j[PT_NAMES[k]] = z;
        must_reject(&p, &j, &bad, gs, "degenerate commitment and proof point", 2)?;
    }
    Ok(())
}

fn p06_lengths(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &TINY);
    let gs = gens(p.padded());
    let (parts, comms) = base_proof(&p, s, gs)?;
    let rounds = parts.l.len();
    let mut done = vec![];
    for _ in 0..5 {
        let mut q = parts.clone();
        let extra = match s.below(3) {
            0 => G1::identity(),
            1 => gs.g.clone(),
            _ => parts.pts[s.below(11)].clone(),
        };
        let (mut nl, mut nr) = (rounds, rounds);
        match s.below(7) {
            0 => nl = s.below(rounds + 3),
            1 => nr = s.below(rounds + 3),
            2 => {
                nl = s.below(rounds + 3);
                nr = nl;
            }
            3 => {
                nl = 0;
                nr = 0;
            }
            4 => {
                nl = *s.pick(&[31, 32, 33, 63, 64, 65]);
                nr = nl;
            }
            5 => {
                nl = s.below(rounds + 2);
                nr = s.below(rounds + 2);
            }
            _ => nr = rounds + s.range(1, 70),
        }
        if nl == rounds && nr == rounds {
            continue;
        }
        q.l.resize(nl, extra.clone());
        q.r.resize(nr, extra);
        c.evals += 1;
        must_reject(&p, &q.json(), &comms, gs, &format!("{} L and {} R instead of {}", nl, nr, rounds), 2)?;
        done.push(format!("{},{}/{}", nl, nr, rounds));
    }
    c.case(!done.is_empty(), format!("{:?} on {}", done, p.desc()));
    Ok(())
}

/// Surplus rounds whose points and final scalars are made to fit: a system without constraints on the
/// right wires and an all-zero assignment has l(x) = 0, so that the final product is 0 whatever the
/// surplus challenges are
fn p06_surplus(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let zeros = s.chance(3, 4);
    let p = if zeros {
        let k = s.below(6);
        let ops = (0..k)
            .map(|_| crate::prog::Op::AllocMult(crate::prog::Val::K(Fe::zero()), crate::prog::Val::K(Fe::zero())))
            .collect();
        Prog {
            label: s.below(4),
            prior: vec![],
            ops,
            commits: 0,
            n1: k,
            n2: 0,
            explicit: 0,
            blocks: 0,
            nested: 0,
            half1: false,
            half2: false,
        }
    } else {
        gen(s, &TINY)
    };
    let gs = gens(p.padded());
    let mut opts = Opts::default();
    opts.zero_blinding = zeros || s.chance(1, 2);
    let sp = Surplus {
        rounds: if s.chance(1, 4) { 2 } else { 1 },
        front: s.chance(2, 3),
        pow_a: s.below(3) as i32 - 1,
        pow_b: s.below(3) as i32 - 1,
        l: if s.chance(1, 3) { Some(Fe::one()) } else { None },
    };
    c.case(true, format!("{:?} on {}", sp, p.desc()));
    opts.surplus = Some(sp);
    let sh = shared(&[]);
    let mut rnd = rng_of(s);
    let rp = ref_prove(ref_cs(&p, &sh, gs), gs, &opts, &mut rnd).map_err(|e| format!("{:?}", e))?;
    must_reject(&p, &rp.parts.json(), &rp.cs.vp, gs, "surplus rounds", 2)?;
    Ok(())
}

/// Whole proofs of identities, zeros, arbitrary points and scalars of the right and wrong shape
fn p06_arbitrary(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &TINY);
    let gs = gens(p.padded());
    let sh = shared(&[]);
    let cs = ref_cs(&p, &sh, gs);
    let comms = cs.vp.clone();
    let mut rp = |s: &mut Src| -> G1 {
        match s.below(6) {
            0 | 1 => G1::identity(),
            2 => gs.g.clone(),
            3 => gs.h.clone(),
            4 => s.pick(gs.gv.as_slice()).clone(),
            _ => pt(&s.fe_rand()),
        }
    };
    let all_id = s.chance(1, 4);
    let rounds = p.padded().trailing_zeros() as usize;
    let q = Parts {
        pts: (0..11).map(|_| if all_id { G1::identity() } else { rp(s) }).collect(),
        sc: (0..3).map(|_| if all_id { Fe::zero() } else { s.fe() }).collect(),
        l: (0..rounds).map(|_| if all_id { G1::identity() } else { rp(s) }).collect(),
        r: (0..rounds).map(|_| if all_id { G1::identity() } else { rp(s) }).collect(),
        a: if all_id { Fe::zero() } else { s.fe() },
        b: if all_id { Fe::zero() } else { s.fe() },
    };
    c.case(true, format!("identities={} on {}", all_id, p.desc()));
    // the documented equations decide whether it is a proof after all
    let (vcs, _) = ref_ver_cs(&p, &[], &comms);
    let v = ref_verify(vcs, gs, &q)?;
    let want = v.t_ok && v.ipp_ok;
    let proof = q.proof();
    for _ in 0..2 {
        let r = no_panic(|| real_verify(&p, &[], &comms, &proof, &gs.g, &gs.h, &gs.gv, &gs.hv).0)?;
        if r.is_ok() != want {
            return Err(format!("arbitrary proof: verdict {:?}, documented equations give {}", r, want));
        }
    }
    Ok(())
}

/// Byte-level mutation of the serialised proof
fn p06_text(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &TINY);
    let gs = gens(p.padded());
    let (parts, comms) = base_proof(&p, s, gs)?;
    let good = parts.json();
    let text = good.to_string();
    let mut n_ok = 0;
    for _ in 0..6 {
        let mut b: Vec<u8> = text.bytes().collect();
        for _ in 0..s.range(1, 3) {
            let k = s.below(b.len());
            match s.below(5) {
                0 => {
                    b.remove(k);
                }
                1 => b.insert(k, *s.pick(b"0123456789abcdefF \"[],{}")),
                2 => {
                    let e = (k + s.range(1, 40)).min(b.len());
                    b.drain(k..e);
                }
                _ => b[k] = *s.pick(b"0123456789abcdef0123456789ABCDEF ,"),
            }
            if b.len() < 4 {
                break;
            }
        }
        let t = String::from_utf8(b).unwrap_or_default();
        let j: Value = match serde_json::from_str(&t) {
            Ok(j) => j,
            Err(_) => continue,
        };
        c.evals += 1;
        let proof: R1CSProof = match no_panic(|| serde_json::from_str::<R1CSProof>(&t)) {
            Ok(Ok(p)) => p,
            _ => continue,
        };
        n_ok += 1;
        // same proof in other words?
        let q = match no_panic(|| Parts::of_json(&j)) {
            Ok(q) => q,
            Err(_) => continue,
        };
        let pe = |a: &G1, b: &G1| (a.is_identity() && b.is_identity()) || a.to_bytes() == b.to_bytes();
        let same = parts.pts.iter().zip(q.pts.iter()).all(|(a, b)| pe(a, b))
            && parts.l.len() == q.l.len()
            && parts.r.len() == q.r.len()
            && parts.l.iter().zip(q.l.iter()).all(|(a, b)| pe(a, b))
            && parts.r.iter().zip(q.r.iter()).all(|(a, b)| pe(a, b))
            && parts.sc.iter().zip(q.sc.iter()).all(|(a, b)| feq(a, b))
            && feq(&parts.a, &q.a)
            && feq(&parts.b, &q.b);
        for _ in 0..2 {
            let r = no_panic(|| real_verify(&p, &[], &comms, &proof, &gs.g, &gs.h, &gs.gv, &gs.hv).0)
                .map_err(|e| format!("verifier crashed on a corrupted proof: {}", e))?;
            if r.is_ok() && !same {
                return Err("corrupted proof accepted".into());
            }
        }
    }
    c.case(n_ok > 0, format!("{} corrupted texts parsed, on {}", n_ok, p.desc()));
    Ok(())
}

pub fn p06() -> Prop {
    Prop {
        id: "P06",
        rule: "A valid proof with points replaced by degenerate, off-curve or wrong-subgroup encodings, with \
               missing, extra or unequal round messages (also surplus rounds with the final scalars adapted to them), with corrupted text, or made of arbitrary group elements \
               and scalars; also such commitments. Verdict: error, no panic, on every run. Non-trivial: the mutant \
               was built (lengths: differs from the right one; text: still parses).",
        subs: vec![
            Sub { name: "points", f: p06_points, quick: 500, thorough: 10000, len: 200, fixed: vec![] },
            Sub { name: "commitments", f: p06_commitments, quick: 500, thorough: 8000, len: 200, fixed: vec![] },
            Sub { name: "lengths", f: p06_lengths, quick: 350, thorough: 6000, len: 200, fixed: vec![] },
            Sub { name: "surplus", f: p06_surplus, quick: 400, thorough: 8000, len: 200, fixed: vec![] },
            Sub { name: "arbitrary", f: p06_arbitrary, quick: 500, thorough: 10000, len: 250, fixed: vec![] },
            Sub { name: "text", f: p06_text, quick: 400, thorough: 10000, len: 250, fixed: vec![] },
        ],
    }
}

// ---------------------------------------------------------------- P07

struct Ipp {
    n: usize,
    a: Vec<Fe>,
    b: Vec<Fe>,
    gf: Vec<Fe>,
    hf: Vec<Fe>,
    label: &'static [u8],
    prior: u64,
}

fn gen_vec(s: &mut Src, n: usize) -> Vec<Fe> {
    match s.below(8) {
        0 => vec![Fe::zero(); n],
        1 => {
            let mut v = vec![Fe::zero(); n];
            let k = s.below(n);
            v[k] = s.fe_nz();
            v
        }
        2 => vec![s.fe(); n],
        3 => (0..n).map(|_| s.fe()).collect(),
        _ => (0..n).map(|_| s.fe_rand()).collect(),
    }
}

fn gen_ipp(s: &mut Src, max_lg: usize) -> Ipp {
    let n = 1usize << s.below(max_lg + 1);
    let f = |s: &mut Src| match s.below(4) {
        0 => vec![Fe::one(); n],
        1 => {
            let y = s.fe_nz();
            let mut p = Fe::one();
            (0..n)
                .map(|_| {
                    let r = p.clone();
                    p = &p * &y;
                    r
                })
                .collect()
        }
        2 => (0..n).map(|_| s.fe_rand()).collect(),
        _ => (0..n).map(|_| s.fe()).collect(),
    };
    let gf = f(s);
    let hf = f(s);
    Ipp {
        n,
        a: gen_vec(s, n),
        b: gen_vec(s, n),
        gf,
        hf,
        label: *s.pick(&[&b"ipp"[..], &b"another"[..]]),
        prior: s.u() % 5,
    }
}

impl Ipp {
    fn tr(&self) -> Transcript {
        let mut t = Transcript::new(self.label);
        t.append_u64(b"prior", self.prior);
        t
    }
    fn p(&self, gs: &Gens, qd: &Fe) -> G1 {
        let mut s = Fe::zero();
        for i in 0..self.n {
            s = &s + &(&(&self.a[i] * &self.gf[i]) * &gs.gvd[i]);
            s = &s + &(&(&self.b[i] * &self.hf[i]) * &gs.hvd[i]);
            s = &s + &(&(&self.a[i] * &self.b[i]) * qd);
        }
        pt(&s)
    }
    fn desc(&self) -> String {
        let z = |v: &[Fe]| v.iter().filter(|x| x.is_zero()).count();
        format!(
            "n={} zeros in a,b,Gf,Hf={},{},{},{} prior={}",
            self.n,
            z(&self.a),
            z(&self.b),
            z(&self.gf),
            z(&self.hf),
            self.prior
        )
    }
}

fn fv(v: &[Fe]) -> FieldElementVector {
    v.to_vec().into()
}

fn p07_main(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let i = gen_ipp(s, if s.peek() % 8 == 0 { 7 } else { 5 });
    let n = i.n;
    c.class(format!("n={}", n));
    let gs = gens(n);
    let (gv, hv) = (prefix(&gs.gv, n), prefix(&gs.hv, n));
    let qd = s.fe_rand();
    let q = pt(&qd);
    let mut tr = i.tr();
    let proof = no_panic(|| {
        IPP::create_ipp(&mut tr, &q, &fv(&i.gf), &fv(&i.hf), &gv, &hv, &fv(&i.a), &fv(&i.b))
    })?;
    let p = i.p(gs, &qd);
    // through the wire
    let text = serde_json::to_string(&proof).map_err(|e| e.to_string())?;
    let proof: InnerProductArgumentProof = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    if serde_json::to_string(&proof).map_err(|e| e.to_string())? != text {
        return Err("serialised again differently".into());
    }
    let ver = |n: usize,
               tr: &mut Transcript,
               gf: &[Fe],
               hf: &[Fe],
               p: &G1,
               q: &G1,
               gv: &G1Vector,
               hv: &G1Vector,
               pr: &InnerProductArgumentProof| {
        no_panic(|| {
            IPP::verify_ipp(n, tr, &fv(gf), &fv(hf), p, q, gv, hv, &pr.a, &pr.b, &pr.L, &pr.R)
        })
    };
    let mut vt = i.tr();
    ver(n, &mut vt, &i.gf, &i.hf, &p, &q, &gv, &hv, &proof)?
        .map_err(|e| format!("inner-product proof rejected: {:?}", e))?;
    if state(&vt) != state(&tr) {
        return Err("transcripts of prover and verifier differ".into());
    }
    // reference proof: same messages (the prover is deterministic)
    let mut rt = i.tr();
    let gd: Vec<Fe> = (0..n).map(|k| &gs.gvd[k] * &i.gf[k]).collect();
    let hd: Vec<Fe> = (0..n).map(|k| &gs.hvd[k] * &i.hf[k]).collect();
    let (l, r, a, b, us) = ref_ipp(&mut rt, &qd, &gd, &hd, &i.a, &i.b);
    {
        let same = l.len() == proof.L.len()
            && r.len() == proof.R.len()
            && (0..l.len()).all(|k| (&l[k] - &proof.L[k]).is_identity() && (&r[k] - &proof.R[k]).is_identity())
            && feq(&a, &proof.a)
            && feq(&b, &proof.b);
        if !same {
            return Err("proof differs from the documented folding".into());
        }
        if state(&rt) != state(&tr) {
            return Err("transcript differs from the documented one".into());
        }
        // verification scalars are the products of the folding challenges
        let mut t = i.tr();
        let (usq, uisq, ss) = no_panic(|| IPP::verification_scalars(&proof.L, &proof.R, n, &mut t))?
            .map_err(|e| format!("verification scalars: {:?}", e))?;
        if usq.len() != us.len() || uisq.len() != us.len() || ss.len() != n {
            return Err("number of verification scalars".into());
        }
        for (k, u) in us.iter().enumerate() {
            if !feq(&usq[k], &(u * u)) || !(&(&usq[k] * &uisq[k]) - &Fe::one()).is_zero() {
                return Err(format!("squared challenge {}", k));
            }
        }
        for k in 0..n {
            let mut e = Fe::one();
            for (j, u) in us.iter().enumerate() {
                let bit = (k >> (us.len() - 1 - j)) & 1;
                e = if bit == 1 { &e * u } else { &e * &u.inverse() };
            }
            if !feq(&e, &ss[k]) {
                return Err(format!("folded scalar {} of {}", k, n));
            }
        }
        c.class("reference compared");
    }
    // binding
    let mut done = vec![];
    for _ in 0..6 {
        let (mut n2, mut gf, mut hf, mut p2, mut q2, mut g2, mut h2, mut pr, mut t) = (
            n,
            i.gf.clone(),
            i.hf.clone(),
            p.clone(),
            q.clone(),
            gv.clone(),
            hv.clone(),
            proof.clone(),
            i.tr(),
        );
        let k = s.below(n);
        let d;
        match s.below(13) {
            0 => {
                p2 = &p + &q;
                d = "P + Q";
            }
            1 => {
                p2 = if s.chance(1, 2) { &p + &gv[k] } else { &p + &hv[k] };
                d = "P + a generator";
            }
            2 => {
                if p.is_identity() {
                    continue;
                }
                p2 = p.negation();
                d = "-P";
            }
            3 => {
                n2 = *s.pick(&[n * 2, n / 2, 0, n + 1]);
                if n2 == n {
                    continue;
                }
                d = "n";
            }
            4 => {
                if proof.a.is_zero() {
                    continue;
                }
                gf[k] = &gf[k] + &s.fe_nz();
                d = "G factor";
            }
            5 => {
                if proof.b.is_zero() {
                    continue;
                }
                hf[k] = &hf[k] + &s.fe_nz();
                d = "H factor";
            }
            6 => {
                if (&proof.a * &proof.b).is_zero() {
                    continue;
                }
                q2 = &q + &gs.g;
                d = "Q";
            }
            7 => {
                if proof.a.is_zero() || gf[k].is_zero() {
                    continue;
                }
                g2[k] = &g2[k] + &gs.h;
                d = "G";
            }
            8 => {
                if proof.b.is_zero() || hf[k].is_zero() {
                    continue;
                }
                h2[k] = &h2[k] + &gs.h;
                d = "H";
            }
            9 => {
                if n == 1 || p.is_identity() || proof.L.iter().any(|x| x.is_identity()) {
                    continue;
                }
                t.append_message(b"x", b"");
                d = "transcript";
            }
            10 => {
                pr.a = &pr.a + &Fe::one();
                // only matters if something is multiplied by it
                if i.gf.iter().all(|x| x.is_zero()) && proof.b.is_zero() {
                    continue;
                }
                d = "a";
            }
            11 => {
                pr.b = &pr.b + &Fe::one();
                if i.hf.iter().all(|x| x.is_zero()) && proof.a.is_zero() {
                    continue;
                }
                d = "b";
            }
            _ => {
                if n == 1 {
                    continue;
                }
                let j = s.below(pr.L.len());
                if s.chance(1, 2) {
                    pr.L[j] = &pr.L[j] + &gs.g;
                    d = "L";
                } else {
                    pr.R[j] = &pr.R[j] + &gs.g;
                    d = "R";
                }
            }
        }
        c.evals += 1;
        c.class(d);
        if ver(n2, &mut t, &gf, &hf, &p2, &q2, &g2, &h2, &pr)?.is_ok() {
            return Err(format!("inner-product proof accepted with changed {} (n={})", d, n));
        }
        done.push(d);
    }
    c.case(n > 1, format!("{} changed: {:?}", i.desc(), done));
    Ok(())
}

fn p07_lengths(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let i = gen_ipp(s, 3);
    let n = i.n;
    let gs = gens(64);
    let qd = s.fe_rand();
    let q = pt(&qd);
    let mut tr = i.tr();
    let gd: Vec<Fe> = (0..n).map(|k| &gs.gvd[k] * &i.gf[k]).collect();
    let hd: Vec<Fe> = (0..n).map(|k| &gs.hvd[k] * &i.hf[k]).collect();
    let (l, r, a, b, _) = ref_ipp(&mut tr, &qd, &gd, &hd, &i.a, &i.b);
    let p = i.p(gs, &qd);
    let mut len = |s: &mut Src, k: usize| -> usize {
        match s.below(4) {
            0 => s.below(2 * k + 2),
            _ => k,
        }
    };
    let (n2, gl, hl, gfl, hfl) = (len(s, n), len(s, n), len(s, n), len(s, n), len(s, n));
    let (ll, rl) = (len(s, l.len()), len(s, r.len()));
    let mut gf = i.gf.clone();
    gf.resize(gfl, Fe::one());
    let mut hf = i.hf.clone();
    hf.resize(hfl, Fe::one());
    let (mut lv, mut rv) = (l.clone(), r.clone());
    lv.resize(ll, gs.g.clone());
    rv.resize(rl, gs.g.clone());
    let want = n2 == n && gl == n && hl == n && gfl == n && hfl == n && ll == l.len() && rl == r.len();
    c.case(!want, format!("n={} given n={} |G|={} |H|={} |Gf|={} |Hf|={} |L|={} |R|={}", n, n2, gl, hl, gfl, hfl, ll, rl));
    let mut t = i.tr();
    let (lv, rv): (G1Vector, G1Vector) = (lv.into(), rv.into());
    let r = no_panic(|| {
        IPP::verify_ipp(
            n2, &mut t, &fv(&gf), &fv(&hf), &p, &q, &prefix(&gs.gv, gl), &prefix(&gs.hv, hl), &a, &b, &lv, &rv,
        )
    })?;
    if r.is_ok() != want {
        return Err(format!("lengths: verdict {:?}", r));
    }
    let mut t = i.tr();
    let r = no_panic(|| IPP::verification_scalars(&lv, &rv, n2, &mut t))?;
    let ok = ll < 32 && n2 == 1 << ll && rl == ll;
    if r.is_ok() != ok {
        return Err(format!("verification_scalars: {:?} for n={}, {} L, {} R", r.is_ok(), n2, ll, rl));
    }
    Ok(())
}

/// Surplus rounds made to fit: with vectors that have one non-zero position the final product does not
/// depend on the challenges
fn p07_surplus(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let lg = s.below(4);
    let n = 1usize << lg;
    let k = s.below(n);
    let mut a = vec![Fe::zero(); n];
    let mut b = vec![Fe::zero(); n];
    a[k] = s.fe();
    b[k] = s.fe();
    let gs = gens(64);
    let qd = s.fe_rand();
    let q = pt(&qd);
    let sp = Surplus {
        rounds: if s.chance(1, 5) { 2 } else { 1 },
        front: s.chance(2, 3),
        pow_a: s.below(3) as i32 - 1,
        pow_b: s.below(3) as i32 - 1,
        l: if s.chance(1, 2) { Some(Fe::one()) } else { None },
    };
    let claim_true = s.chance(1, 2);
    c.case(true, format!("{:?} n={} position {} true claim={}", sp, n, k, claim_true));
    let mut tr = Transcript::new(b"surplus");
    let (gd, hd) = (&gs.gvd[..n], &gs.hvd[..n]);
    let (l, r, fa, fb, _) = ref_ipp_surplus(&mut tr, &qd, gd, hd, &a, &b, &sp);
    let mut p = &(&a[k] * &gd[k]) + &(&b[k] * &hd[k]);
    if claim_true {
        p = &p + &(&(&a[k] * &b[k]) * &qd);
    }
    let ones = vec![Fe::one(); n];
    let mut t = Transcript::new(b"surplus");
    let res = no_panic(|| {
        IPP::verify_ipp(
            n, &mut t, &fv(&ones), &fv(&ones), &pt(&p), &q, &prefix(&gs.gv, n), &prefix(&gs.hv, n), &fa, &fb,
            &l.into(), &r.into(),
        )
    })?;
    if res.is_ok() {
        return Err("inner-product proof with surplus rounds accepted".into());
    }
    Ok(())
}

/// Sizes beyond those of the main sub-check
fn p07_large(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let n = *s.pick(&[256usize, 512, 1024]);
    let gs = gens(n);
    let (a, b): (Vec<Fe>, Vec<Fe>) = ((0..n).map(|_| s.fe_rand()).collect(), (0..n).map(|_| s.fe_rand()).collect());
    let k0 = s.u();
    let gf: Vec<Fe> = (0..n).map(|i| if k0 % 2 == 0 { Fe::one() } else { crate::src::fe_seed(k0 ^ i as u64) }).collect();
    let hf: Vec<Fe> = (0..n).map(|i| crate::src::fe_seed(k0 ^ (i as u64 + 77777))).collect();
    let (gv, hv) = (prefix(&gs.gv, n), prefix(&gs.hv, n));
    let qd = s.fe_rand();
    let q = pt(&qd);
    c.case(true, format!("n={} seed={}", n, k0));
    c.class(format!("n={}", n));
    let mut tr = Transcript::new(b"large");
    let proof =
        no_panic(|| IPP::create_ipp(&mut tr, &q, &fv(&gf), &fv(&hf), &gv, &hv, &fv(&a), &fv(&b)))?;
    let mut e = Fe::zero();
    for i in 0..n {
        e = &e + &(&(&(&a[i] * &gf[i]) * &gs.gvd[i]) + &(&(&b[i] * &hf[i]) * &gs.hvd[i]));
        e = &e + &(&(&a[i] * &b[i]) * &qd);
    }
    let p = pt(&e);
    let ver = |p: &G1, gv: &G1Vector, gf: &[Fe]| -> Result<bool, String> {
        let mut t = Transcript::new(b"large");
        no_panic(|| {
            IPP::verify_ipp(n, &mut t, &fv(gf), &fv(&hf), p, &q, gv, &hv, &proof.a, &proof.b, &proof.L, &proof.R).is_ok()
        })
    };
    if !ver(&p, &gv, &gf)? {
        return Err(format!("inner-product proof of length {} rejected", n));
    }
    let i = s.below(n);
    let mut gf2 = gf.clone();
    gf2[i] = &gf2[i] + &Fe::one();
    if ver(&(&p + &gv[i]), &gv, &gf)? || ver(&p, &gv, &gf2)? {
        return Err(format!("inner-product proof of length {} accepted with position {} changed", n, i));
    }
    Ok(())
}

fn p07_bad_points(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let i = gen_ipp(s, 3);
    let n = i.n;
    let gs = gens(64);
    let qd = s.fe_rand();
    let q = pt(&qd);
    let mut tr = i.tr();
    let gd: Vec<Fe> = (0..n).map(|k| &gs.gvd[k] * &i.gf[k]).collect();
    let hd: Vec<Fe> = (0..n).map(|k| &gs.hvd[k] * &i.hf[k]).collect();
    let (mut l, mut r, a, b, _) = ref_ipp(&mut tr, &qd, &gd, &hd, &i.a, &i.b);
    let mut p = i.p(gs, &qd);
    let k = s.below(1 + 2 * l.len());
    let (v, d) = {
        let o = if k == 0 { p.clone() } else if k % 2 == 1 { l[k / 2].clone() } else { r[k / 2 - 1].clone() };
        bad_point(s, &o)
    };
    let bad: G1 = match no_panic(|| serde_json::from_value(v)) {
        Ok(Ok(x)) => x,
        _ => return Ok(()),
    };
    if k == 0 {
        p = bad;
    } else if k % 2 == 1 {
        l[k / 2] = bad;
    } else {
        r[k / 2 - 1] = bad;
    }
    c.case(true, format!("{} at {} of {}", d, k, i.desc()));
    let (lv, rv): (G1Vector, G1Vector) = (l.into(), r.into());
    let mut t = i.tr();
    let res = no_panic(|| {
        IPP::verify_ipp(n, &mut t, &fv(&i.gf), &fv(&i.hf), &p, &q, &prefix(&gs.gv, n), &prefix(&gs.hv, n), &a, &b, &lv, &rv)
    })?;
    if res.is_ok() {
        return Err(format!("inner-product proof with a malformed point accepted ({})", d));
    }
    Ok(())
}

/// Folded scalars for lengths no proof is made for here: they only depend on the round messages.
fn p07_scalars(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let lg = match s.below(4) {
        0 => s.range(0, 9),
        1 => s.range(9, 13),
        2 => s.range(12, 16),
        _ => 17,
    };
    let n = 1usize << lg;
    let gs = gens(64);
    let pick = |s: &mut Src| -> G1 { if s.chance(1, 12) { G1::identity() } else { (&gs.gv[s.below(64)]) + (&gs.hv[s.below(64)]) } };
    let l: Vec<G1> = (0..lg).map(|_| pick(s)).collect();
    let r: Vec<G1> = (0..lg).map(|_| pick(s)).collect();
    c.case(lg > 0, format!("scalars for length 2^{}", lg));
    c.class(if lg > 15 { "above 2^15" } else if lg > 9 { "above 2^9" } else { "small" });
    let (lv, rv): (G1Vector, G1Vector) = (l.clone().into(), r.clone().into());
    let mut t = Transcript::new(b"scalars");
    let (usq, uisq, ss) = no_panic(|| IPP::verification_scalars(&lv, &rv, n, &mut t))?
        .map_err(|e| format!("verification scalars for 2^{}: {:?}", lg, e))?;
    let mut t2 = Transcript::new(b"scalars");
    t2.append_message(b"dom-sep", b"ipp v1");
    t2.append_message(b"n", &(n as u64).to_le_bytes());
    let mut us = vec![];
    for k in 0..lg {
        crate::refcs::absorb_point(&mut t2, b"L", &l[k]);
        crate::refcs::absorb_point(&mut t2, b"R", &r[k]);
        us.push(crate::refcs::challenge(&mut t2, b"u"));
    }
    if state(&t) != state(&t2) {
        return Err(format!("transcript after the rounds of length 2^{} differs from the documented one", lg));
    }
    if usq.len() != lg || uisq.len() != lg || ss.len() != n {
        return Err("number of verification scalars".into());
    }
    for (k, u) in us.iter().enumerate() {
        if !feq(&usq[k], &(u * u)) || !(&(&usq[k] * &uisq[k]) - &Fe::one()).is_zero() {
            return Err(format!("squared challenge {} of {}", k, lg));
        }
    }
    // fold the unit vectors: position k keeps the factor u_j when bit j is set and its inverse otherwise
    let mut e = vec![Fe::one()];
    for u in us.iter() {
        let ui = u.inverse();
        let mut f = Vec::with_capacity(2 * e.len());
        for x in e.iter() {
            f.push(x * &ui);
            f.push(x * u);
        }
        e = f;
    }
    match (0..n).find(|k| !feq(&e[*k], &ss[*k])) {
        Some(k) => Err(format!("folded scalar {} of {}", k, n)),
        None => Ok(()),
    }
}

pub fn p07() -> Prop {
    Prop {
        id: "P07",
        rule: "Random scalar vectors (zero, sparse, special, random), factors and sizes 1..128 and up to 1024; proof verified, \
               compared with the documented folding over known discrete logarithms, then one input changed \
               (commitment, size, factor, generator, transcript, proof value) where it has an effect; vectors of \
               wrong length, surplus rounds and malformed points; folded scalars alone up to 2^17. Non-trivial: n > 1 (lengths: some length wrong).",
        subs: vec![
            Sub { name: "ipp", f: p07_main, quick: 450, thorough: 8000, len: 700, fixed: vec![] },
            Sub { name: "lengths", f: p07_lengths, quick: 800, thorough: 10000, len: 80, fixed: vec![] },
            Sub { name: "surplus", f: p07_surplus, quick: 500, thorough: 8000, len: 30, fixed: vec![] },
            Sub { name: "large", f: p07_large, quick: 9, thorough: 120, len: 2200, fixed: vec![] },
            Sub { name: "scalars", f: p07_scalars, quick: 120, thorough: 1500, len: 120, fixed: vec![] },
            Sub { name: "bad-points", f: p07_bad_points, quick: 300, thorough: 5000, len: 80, fixed: vec![] },
        ],
    }
}

// ---------------------------------------------------------------- P09

fn var(s: &mut Src) -> Variable {
    let i = s.below(4);
    match s.below(5) {
        0 => Variable::One(),
        1 => Variable::Committed(i),
        2 => Variable::MultiplierLeft(i),
        3 => Variable::MultiplierRight(i),
        _ => Variable::MultiplierOutput(i),
    }
}

struct Asg(Vec<Vec<Fe>>);

impl Asg {
    fn v(&self, v: &Variable) -> Fe {
        match v {
            Variable::One() => Fe::one(),
            Variable::Committed(i) => self.0[0][*i].clone(),
            Variable::MultiplierLeft(i) => self.0[1][*i].clone(),
            Variable::MultiplierRight(i) => self.0[2][*i].clone(),
            Variable::MultiplierOutput(i) => self.0[3][*i].clone(),
        }
    }
    fn lc(&self, lc: &LinearCombination) -> Fe {
        let mut s = Fe::zero();
        for (v, c) in lc.terms.iter() {
            s = &s + &(c * &self.v(v));
        }
        s
    }
}

/// A random expression, its value under each assignment, and its text
fn expr(s: &mut Src, asg: &[Asg], depth: usize) -> (LinearCombination, Vec<Fe>, String) {
    let k = if depth == 0 { s.below(4) } else { s.below(19) };
    let each = |f: &dyn Fn(&Asg) -> Fe| -> Vec<Fe> { asg.iter().map(|a| f(a)).collect() };
    let zip = |a: &[Fe], b: &[Fe], f: &dyn Fn(&Fe, &Fe) -> Fe| -> Vec<Fe> {
        a.iter().zip(b.iter()).map(|(x, y)| f(x, y)).collect()
    };
    match k {
        0 => {
            let v = var(s);
            (v.into(), each(&|a| a.v(&v)), format!("{:?}", v))
        }
        1 => {
            let x = s.fe();
            (x.clone().into(), each(&|_| x.clone()), "k".into())
        }
        2 => (LinearCombination::default(), each(&|_| Fe::zero()), "0".into()),
        3 => {
            let n = s.below(5);
            let ts: Vec<(Variable, Fe)> = (0..n).map(|_| (var(s), s.fe())).collect();
            let val = each(&|a| {
                let mut x = Fe::zero();
                for (v, c) in ts.iter() {
                    x = &x + &(c * &a.v(v));
                }
                x
            });
            let lc = if s.chance(1, 2) { ts.iter().collect() } else { ts.into_iter().collect() };
            (lc, val, format!("collect{}", n))
        }
        4 | 5 => {
            let (a, x, t) = expr(s, asg, depth - 1);
            let (b, y, u) = expr(s, asg, depth - 1);
            (a + b, zip(&x, &y, &|p, q| p + q), format!("({} + {})", t, u))
        }
        6 | 7 => {
            let (a, x, t) = expr(s, asg, depth - 1);
            let (b, y, u) = expr(s, asg, depth - 1);
            (a - b, zip(&x, &y, &|p, q| p - q), format!("({} - {})", t, u))
        }
        8 => {
            let (a, x, t) = expr(s, asg, depth - 1);
            (-a, x.iter().map(|p| p.negation()).collect(), format!("-{}", t))
        }
        9 => {
            let (a, x, t) = expr(s, asg, depth - 1);
            let c = s.fe();
            (c.clone() * a, x.iter().map(|p| p * &c).collect(), format!("k*{}", t))
        }
        10 => {
            let (a, x, t) = expr(s, asg, depth - 1);
            let c = s.fe();
            (&c * a, x.iter().map(|p| p * &c).collect(), format!("&k*{}", t))
        }
        11 => {
            let (mut a, x, t) = expr(s, asg, depth - 1);
            let (b, y, u) = expr(s, asg, depth - 1);
            a += b;
            (a, zip(&x, &y, &|p, q| p + q), format!("({} += {})", t, u))
        }
        12 => {
            let v = var(s);
            let (b, y, u) = expr(s, asg, depth - 1);
            let x = each(&|a| a.v(&v));
            (v + b, zip(&x, &y, &|p, q| p + q), format!("({:?} + {})", v, u))
        }
        13 => {
            let v = var(s);
            let (b, y, u) = expr(s, asg, depth - 1);
            let x = each(&|a| a.v(&v));
            (v - b, zip(&x, &y, &|p, q| p - q), format!("({:?} - {})", v, u))
        }
        14 => {
            let v = var(s);
            let c = s.fe();
            let val = each(&|a| &c + &a.v(&v));
            (c.clone() + v, val, format!("(k + {:?})", v))
        }
        15 => {
            let v = var(s);
            let c = s.fe();
            match s.below(3) {
                0 => (c.clone() - v, each(&|a| &c - &a.v(&v)), format!("(k - {:?})", v)),
                1 => (c.clone() * v, each(&|a| &c * &a.v(&v)), format!("k*{:?}", v)),
                _ => (-v, each(&|a| a.v(&v).negation()), format!("-{:?}", v)),
            }
        }
        16 => {
            let (a, x, t) = expr(s, asg, depth - 1);
            let v = var(s);
            let c = s.fe();
            match s.below(6) {
                0 => (a + v, zip(&x, &each(&|a| a.v(&v)), &|p, q| p + q), format!("({} + {:?})", t, v)),
                1 => (a - v, zip(&x, &each(&|a| a.v(&v)), &|p, q| p - q), format!("({} - {:?})", t, v)),
                2 => (a + c.clone(), x.iter().map(|p| p + &c).collect(), format!("({} + k)", t)),
                3 => (a - c.clone(), x.iter().map(|p| p - &c).collect(), format!("({} - k)", t)),
                4 => {
                    let mut a = a;
                    a += v;
                    (a, zip(&x, &each(&|a| a.v(&v)), &|p, q| p + q), format!("({} += {:?})", t, v))
                }
                _ => {
                    let mut a = a;
                    a += c.clone();
                    (a, x.iter().map(|p| p + &c).collect(), format!("({} += k)", t))
                }
            }
        }
        17 => {
            let v = var(s);
            let c = s.fe();
            let w = var(s);
            match s.below(4) {
                0 => (v + w, each(&|a| &a.v(&v) + &a.v(&w)), format!("({:?} + {:?})", v, w)),
                1 => (v - w, each(&|a| &a.v(&v) - &a.v(&w)), format!("({:?} - {:?})", v, w)),
                2 => (v + c.clone(), each(&|a| &a.v(&v) + &c), format!("({:?} + k)", v)),
                _ => (v - c.clone(), each(&|a| &a.v(&v) - &c), format!("({:?} - k)", v)),
            }
        }
        _ => {
            let (a, x, t) = expr(s, asg, depth - 1);
            (a.simplify(), x, format!("simplify({})", t))
        }
    }
}

fn p09_expr(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let asg: Vec<Asg> = (0..3)
        .map(|_| Asg((0..4).map(|_| (0..4).map(|_| s.fe_rand()).collect()).collect()))
        .collect();
    let d = s.range(1, 6);
    let (lc, val, t) = no_panic(|| expr(s, &asg, d))?;
    c.case(t.len() > 12, t.clone());
    for (a, v) in asg.iter().zip(val.iter()) {
        if !feq(&a.lc(&lc), v) {
            return Err(format!("{} has another value than its arithmetic", t));
        }
    }
    let n = lc.terms.len();
    if lc.len() != n {
        return Err("len()".into());
    }
    let terms = lc.clone().get_terms();
    let again: LinearCombination = terms.into_iter().collect();
    let simp = no_panic(|| lc.clone().simplify())?;
    for (a, v) in asg.iter().zip(val.iter()) {
        if !feq(&a.lc(&again), v) {
            return Err("get_terms changes the value".into());
        }
        if !feq(&a.lc(&simp), v) {
            return Err(format!("simplify changes the value of {}", t));
        }
    }
    let mut seen: Vec<Variable> = vec![];
    for (v, _) in simp.terms.iter() {
        if seen.contains(v) {
            return Err(format!("simplify leaves {:?} twice", v));
        }
        seen.push(*v);
        if !lc.terms.iter().any(|(w, _)| w == v) {
            return Err(format!("simplify invents {:?}", v));
        }
    }
    Ok(())
}

/// Combinations of many distinct variables with indices of any size, under a hash-like assignment
fn p09_wide(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    fn tag(v: &Variable) -> (u64, u64) {
        match v {
            Variable::One() => (0, 0),
            Variable::Committed(i) => (1, *i as u64),
            Variable::MultiplierLeft(i) => (2, *i as u64),
            Variable::MultiplierRight(i) => (3, *i as u64),
            Variable::MultiplierOutput(i) => (4, *i as u64),
        }
    }
    fn val(v: &Variable, salt: u64) -> Fe {
        let (k, i) = tag(v);
        if k == 0 {
            return Fe::one();
        }
        crate::src::fe_seed(crate::src::mix(salt ^ crate::src::mix(i)) ^ (k << 60))
    }
    let n = match s.below(8) {
        0 => s.range(1, 20),
        7 => s.range(1000, 3000),
        6 => s.range(300, 1100),
        _ => s.range(20, 300),
    };
    let (seed, salt) = (s.u(), s.u());
    let spread = *s.pick(&[4usize, 64, 300, 5000, 1 << 34]);
    let kinds = s.range(1, 5);
    let base = *s.pick(&[0usize, 0, 0, 255, 65535, (1 << 32) - 2]);
    let mut k = seed;
    let mut next = || {
        k = crate::src::mix(k);
        k
    };
    let mk = |next: &mut dyn FnMut() -> u64| -> Vec<(Variable, Fe)> {
        let mut ts: Vec<(Variable, Fe)> = vec![];
        for j in 0..n {
            let i = base + if next() % 3 == 0 { j % spread } else { (next() % spread as u64) as usize };
            let mut v = match next() % kinds as u64 {
                0 => Variable::MultiplierLeft(i),
                1 => Variable::Committed(i),
                2 => Variable::MultiplierRight(i),
                3 => Variable::MultiplierOutput(i),
                _ => Variable::One(),
            };
            if j > 0 && next() % 5 == 0 {
                v = ts[j - 1].0; // adjacent repetition
            } else if j > 3 && next() % 5 == 0 {
                v = ts[(next() % j as u64) as usize].0;
            }
            let x = match next() % 5 {
                0 => Fe::one(),
                1 => Fe::minus_one(),
                2 => Fe::zero(),
                _ => crate::src::fe_seed(next()),
            };
            ts.push((v, x));
        }
        ts
    };
    let (ta, tb) = (mk(&mut next), mk(&mut next));
    let sum = |ts: &[(Variable, Fe)]| -> Fe {
        let mut r = Fe::zero();
        for (v, x) in ts {
            r = &r + &(x * &val(v, salt));
        }
        r
    };
    let (xa, xb) = (sum(&ta), sum(&tb));
    c.case(n >= 20, format!("{} terms, kinds {}, spread {}, base {}, seed {}", n, kinds, spread, base, seed));
    c.class(if n >= 1000 { "1000+" } else if n >= 300 { "300+" } else { "small" });
    let a: LinearCombination = if s.chance(1, 2) { ta.iter().collect() } else { ta.clone().into_iter().collect() };
    let b: LinearCombination = tb.clone().into_iter().collect();
    let f = s.fe();
    let (lc, want, what) = match s.below(6) {
        0 => (a + b, &xa + &xb, "a + b"),
        1 => (a - b, &xa - &xb, "a - b"),
        2 => (-a, xa.negation(), "-a"),
        3 => (&f * a, &f * &xa, "k a"),
        4 => (f.clone() * (a - b), &f * &(&xa - &xb), "k (a - b)"),
        _ => {
            let mut a = a;
            for (v, x) in tb.iter() {
                a += x.clone() * *v;
            }
            (a, &xa + &xb, "a += each of b")
        }
    };
    if !feq(&sum(&lc.terms), &want) {
        return Err(format!("{} of combinations of {} terms has another value", what, n));
    }
    let simp = no_panic(|| lc.clone().simplify())?;
    if !feq(&sum(&simp.terms), &want) {
        return Err(format!("simplify changes the value of {} of combinations of {} terms", what, n));
    }
    let mut seen = std::collections::HashSet::new();
    for (v, _) in simp.terms.iter() {
        if !seen.insert(tag(v)) {
            return Err(format!("simplify leaves {:?} twice ({} terms)", v, n));
        }
    }
    Ok(())
}

pub fn p09() -> Prop {
    Prop {
        id: "P09",
        rule: "Random expression trees (depth up to 6) over every operator and conversion of linear combinations, \
               variables and scalars, compared under three random assignments with the arithmetic value; then \
               simplified; also combinations of up to 3000 terms. Non-trivial: more than one operator.",
        subs: vec![Sub { name: "expr", f: p09_expr, quick: 40000, thorough: 800000, len: 500, fixed: vec![] },
            Sub { name: "wide", f: p09_wide, quick: 3000, thorough: 60000, len: 16, fixed: vec![] },
        ],
    }
}

// ---------------------------------------------------------------- P10

fn conv(l: &[Vec<Fe>], r: &[Vec<Fe>]) -> Vec<Fe> {
    let mut t = vec![Fe::zero(); l.len() + r.len() - 1];
    for (i, a) in l.iter().enumerate() {
        for (j, b) in r.iter().enumerate() {
            for (x, y) in a.iter().zip(b.iter()) {
                t[i + j] = &t[i + j] + &(x * y);
            }
        }
    }
    t
}

fn pv(cs: &[Fe], x: &Fe) -> Fe {
    let mut p = Fe::one();
    let mut s = Fe::zero();
    for c in cs {
        s = &s + &(c * &p);
        p = &p * x;
    }
    s
}

fn same_vec(a: &FieldElementVector, b: &[Fe]) -> bool {
    a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| feq(x, y))
}

fn evals(cs: &[Vec<Fe>], x: &Fe) -> Vec<Fe> {
    (0..cs[0].len())
        .map(|i| pv(&cs.iter().map(|c| c[i].clone()).collect::<Vec<_>>(), x))
        .collect()
}

fn p10_poly(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let n = s.range(1, 9);
    p10_at(s, c, n)
}
/// Lengths of real circuits
fn p10_large(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let n = match s.below(3) {
        0 => (1usize << s.range(3, 11)) + s.below(3) - 1,
        _ => s.range(10, 1500),
    };
    p10_at(s, c, n)
}
fn p10_at(s: &mut Src, c: &mut Ctx, n: usize) -> Result<(), String> {
    let x = s.fe();
    let deg3 = s.chance(1, 2);
    let g = |s: &mut Src| gen_vec(s, n);
    let dot = |a: &FieldElementVector, b: &FieldElementVector| {
        let mut t = Fe::zero();
        for (p, q) in a.iter().zip(b.iter()) {
            t = &t + &(p * q);
        }
        t
    };
    if !deg3 {
        let l: Vec<Vec<Fe>> = (0..2).map(|_| g(s)).collect();
        let r: Vec<Vec<Fe>> = (0..2).map(|_| g(s)).collect();
        c.case(n > 1, format!("degree 1, n={} x={}", n, x.to_hex()));
        let lp = VecPoly1(fv(&l[0]), fv(&l[1]));
        let rp = VecPoly1(fv(&r[0]), fv(&r[1]));
        let t = no_panic(|| lp.inner_product(&rp))?;
        let w = conv(&l, &r);
        for (k, (a, b)) in [&t.0, &t.1, &t.2].iter().zip(w.iter()).enumerate() {
            if !feq(a, b) {
                return Err(format!("coefficient {} of the inner product", k));
            }
        }
        let (le, re) = no_panic(|| (lp.eval(&x), rp.eval(&x)))?;
        if !same_vec(&le, &evals(&l, &x)) || !same_vec(&re, &evals(&r, &x)) {
            return Err("vector evaluation".into());
        }
        let te = no_panic(|| t.eval(&x))?;
        if !feq(&te, &pv(&w, &x)) || !feq(&te, &dot(&le, &re)) {
            return Err("evaluation of the inner product".into());
        }
        let p2 = Poly2(s.fe(), s.fe(), s.fe());
        if !feq(&p2.eval(&x), &pv(&[p2.0.clone(), p2.1.clone(), p2.2.clone()], &x)) {
            return Err("Poly2::eval".into());
        }
        let z = VecPoly1::zero(n);
        if z.0.len() != n || z.1.len() != n || z.eval(&x).iter().any(|v| !v.is_zero()) {
            return Err("VecPoly1::zero".into());
        }
    } else {
        let zero = vec![Fe::zero(); n];
        let special = s.chance(3, 4);
        let mut l: Vec<Vec<Fe>> = (0..4).map(|_| g(s)).collect();
        let mut r: Vec<Vec<Fe>> = (0..4).map(|_| g(s)).collect();
        if special {
            l[0] = zero.clone();
            r[2] = zero;
        }
        c.case(n > 1, format!("degree 3, special={}, n={} x={}", special, n, x.to_hex()));
        let lp = VecPoly3(fv(&l[0]), fv(&l[1]), fv(&l[2]), fv(&l[3]));
        let rp = VecPoly3(fv(&r[0]), fv(&r[1]), fv(&r[2]), fv(&r[3]));
        let (le, re) = no_panic(|| (lp.eval(&x), rp.eval(&x)))?;
        if !same_vec(&le, &evals(&l, &x)) || !same_vec(&re, &evals(&r, &x)) {
            return Err("vector evaluation".into());
        }
        if special {
            let t = no_panic(|| VecPoly3::special_inner_product(&lp, &rp))?;
            let w = conv(&l, &r);
            for (k, a) in [&t.t1, &t.t2, &t.t3, &t.t4, &t.t5, &t.t6].iter().enumerate() {
                if !feq(a, &w[k + 1]) {
                    return Err(format!("coefficient {} of the special inner product", k + 1));
                }
            }
            let te = no_panic(|| t.eval(&x))?;
            if !feq(&te, &pv(&w, &x)) || !feq(&te, &dot(&le, &re)) {
                return Err("evaluation of the special inner product".into());
            }
        }
        let p6 = Poly6 { t1: s.fe(), t2: s.fe(), t3: s.fe(), t4: s.fe(), t5: s.fe(), t6: s.fe() };
        let cs = [Fe::zero(), p6.t1.clone(), p6.t2.clone(), p6.t3.clone(), p6.t4.clone(), p6.t5.clone(), p6.t6.clone()];
        if !feq(&p6.eval(&x), &pv(&cs, &x)) {
            return Err("Poly6::eval".into());
        }
        let z = VecPoly3::zero(n);
        if z.0.len() != n || z.1.len() != n || z.2.len() != n || z.3.len() != n || z.eval(&x).iter().any(|v| !v.is_zero()) {
            return Err("VecPoly3::zero".into());
        }
    }
    Ok(())
}

pub fn p10() -> Prop {
    Prop {
        id: "P10",
        rule: "Random coefficient vectors (zero, sparse, special, random; length 1..9 and up to 2049) and points; coefficients \
               compared with the convolution, evaluations with direct polynomial evaluation. Non-trivial: length > 1.",
        subs: vec![Sub { name: "poly", f: p10_poly, quick: 30000, thorough: 600000, len: 120, fixed: vec![] },
            Sub { name: "large", f: p10_large, quick: 400, thorough: 8000, len: 120, fixed: vec![] }],
    }
}

pub fn _unused(_: R1CSError) {}
