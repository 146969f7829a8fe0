//! P11-P15, P17, P19: every gadget proves exactly the true statements.

use crate::fw::*;
use crate::gadgets::*;
use crate::prog::LABELS;
use crate::refcs::*;
use crate::refhash::*;
use crate::solver::{solve, Sys};
use crate::src::{fe, fe_seed, mix, Src};
use amcl_wrapper::group_elem::GroupElementVector;
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::{LinearCombination, Prover, R1CSProof, Verifier};
use merlin::Transcript;
use rand::rngs::StdRng;
use rand::SeedableRng;
use std::rc::Rc;

pub fn std_rng(seed: u64) -> StdRng {
    let mut b = [0u8; 32];
    let mut s = seed;
    for c in b.chunks_mut(8) {
        s = mix(s);
        c.copy_from_slice(&s.to_le_bytes());
    }
    StdRng::from_seed(b)
}

pub fn pow2(k: usize) -> Fe {
    let mut r = Fe::one();
    for _ in 0..k {
        r = &r + &r;
    }
    r
}

// ---------------------------------------------------------------- generators of statements

fn bitlen(x: u64) -> usize {
    64 - x.leading_zeros() as usize
}

pub fn gen_bound(s: &mut Src, truth: bool, max_bits: usize) -> St {
    let mask = if max_bits >= 64 { u64::max_value() } else { (1u64 << max_bits) - 1 };
    let base = s.int();
    let width = s.int() & mask;
    let (lower, upper) = match s.below(6) {
        0 => (0, width),
        1 => (u64::max_value() - width, u64::max_value()),
        2 => {
            let a = base;
            (a, a)
        }
        _ => {
            let lo = base.min(u64::max_value() - width);
            (lo, lo + width)
        }
    };
    let need = bitlen(upper - lower);
    let bits = match s.below(4) {
        0 | 1 => need.max(if s.chance(1, 4) { 0 } else { 1 }),
        2 => (need + s.below(5)).min(64),
        _ => need + s.below(max_bits.max(need).min(64) - need + 1),
    };
    let val = if truth {
        match s.below(5) {
            0 => fe(lower),
            1 => fe(upper),
            2 => fe(lower + (upper - lower) / 2),
            3 => fe(if upper > lower { upper - 1 } else { upper }),
            _ => {
                let d = upper - lower;
                fe(lower + if d == u64::max_value() { s.u() } else { s.u() % (d + 1) })
            }
        }
    } else {
        let cand = match s.below(10) {
            0 => &fe(upper) + &Fe::one(),
            1 => &fe(lower) - &Fe::one(),
            2 => &fe(upper) + &pow2(bits),
            3 => &fe(lower) + &pow2(bits),
            4 => &fe(lower) - &pow2(bits),
            5 => fe(s.int()),
            6 => &fe(upper) + &fe(s.int()),
            7 => &fe(lower) - &fe(s.int()),
            8 => &fe(upper) + &pow2(s.below(260)),
            _ => s.fe(),
        };
        let st = St::Bound { val: cand.clone(), lower, upper, bits };
        if st.truth() {
            &fe(upper) + &Fe::one()
        } else {
            cand
        }
    };
    St::Bound { val, lower, upper, bits }
}

fn set_size(s: &mut Src, max: usize) -> usize {
    let k = match s.below(8) {
        0 => 1,
        1 => 2,
        2..=5 => 1 + s.below(8),
        6 => 1 + s.below(max),
        _ => max - s.below(4),
    };
    k.min(max).max(1)
}

pub fn gen_fe_set(s: &mut Src, max: usize) -> Vec<Fe> {
    let n = set_size(s, max);
    let seed = s.u();
    (0..n)
        .map(|i| if i < 24 { s.fe() } else { fe_seed(seed ^ i as u64) })
        .collect()
}

/// A value not in the set, often close to it
fn outside(s: &mut Src, set: &[Fe]) -> Fe {
    let pick = |s: &mut Src| if set.is_empty() { Fe::zero() } else { set[s.below(set.len())].clone() };
    let mut c = match s.below(7) {
        0 => &pick(s) + &Fe::one(),
        1 => &pick(s) + &pick(s),
        2 => pick(s).negation(),
        3 => &pick(s) * &pick(s),
        4 => &(&pick(s) + &pick(s)) * &fe(2).inverse(),
        _ => s.fe(),
    };
    while set.iter().any(|x| feq(x, &c)) {
        c = &c + &fe(3);
    }
    c
}

pub fn gen_set_mem(s: &mut Src, truth: bool, max: usize) -> St {
    let set = if !truth && s.chance(1, 30) { vec![] } else { gen_fe_set(s, max) };
    let val = if truth { set[s.below(set.len())].clone() } else { outside(s, &set) };
    St::SetMem { val, set }
}

pub fn gen_set_alt(s: &mut Src, truth: bool, max: usize) -> St {
    let n = set_size(s, max);
    let mut set: Vec<u64> = vec![];
    let seed = s.u();
    for i in 0..n {
        let mut x = if i < 24 { s.int() } else { mix(seed ^ i as u64) };
        while set.contains(&x) {
            x = x.wrapping_add(1);
        }
        set.push(x);
    }
    if !truth && s.chance(1, 30) {
        set.clear();
    }
    let val = if truth {
        fe(set[s.below(set.len())])
    } else {
        let f: Vec<Fe> = set.iter().map(|x| fe(*x)).collect();
        outside(s, &f)
    };
    St::SetAlt { val, set }
}

pub fn gen_non_mem(s: &mut Src, truth: bool, max: usize) -> St {
    let set = if truth && s.chance(1, 30) { vec![] } else { gen_fe_set(s, max) };
    let val = if truth { outside(s, &set) } else { set[s.below(set.len())].clone() };
    St::NonMem { val, set }
}

pub fn gen_non_zero(s: &mut Src, truth: bool) -> St {
    let val = if truth {
        s.fe_nz()
    } else {
        // zero in different representations
        match s.below(3) {
            0 => Fe::zero(),
            1 => {
                let x = s.fe();
                &x - &x
            }
            _ => {
                let x = s.fe();
                &x + &x.negation()
            }
        }
    };
    St::NonZero { val }
}

pub fn gen_hamming(s: &mut Src, truth: bool, max: usize) -> St {
    let n = match s.below(6) {
        0 => s.below(3),
        1..=3 => 1 + s.below(6),
        _ => s.below(max + 1),
    };
    let p = s.below(5);
    let mut orig = vec![];
    let mut new = vec![];
    for _ in 0..n {
        let a = s.fe();
        let same = match p {
            0 => true,
            1 => false,
            _ => s.chance(1, 2),
        };
        let b = if same {
            a.clone()
        } else {
            match s.below(3) {
                0 => &a + &Fe::one(),
                1 => &a - &Fe::one(),
                _ => s.fe(),
            }
        };
        orig.push(a);
        new.push(b);
    }
    let c = orig.iter().zip(new.iter()).filter(|(a, b)| !feq(a, b)).count() as u64;
    let count = if truth {
        c
    } else {
        let k = match s.below(8) {
            0 | 1 => c.wrapping_add(1),
            2 | 3 => c.wrapping_sub(1),
            4 => 0,
            5 => n as u64,
            6 => s.int(),
            _ => s.u() % (n as u64 + 2),
        };
        if k == c {
            c + 1
        } else {
            k
        }
    };
    St::Hamming { orig, new, count }
}

pub fn other_than(s: &mut Src, x: &Fe) -> Fe {
    let c = match s.below(5) {
        0 => x + &Fe::one(),
        1 => x.negation(),
        2 => Fe::zero(),
        _ => s.fe(),
    };
    if feq(&c, x) {
        x - &Fe::one()
    } else {
        c
    }
}

pub fn gen_mimc(s: &mut Src, truth: bool, max: usize) -> St {
    let n = match s.below(5) {
        0 => s.below(3),
        1..=3 => 1 + s.below(8),
        _ => s.below(max + 1),
    };
    let ins = vec![s.fe(), s.fe()];
    let consts: Vec<Fe> = (0..n).map(|_| s.fe()).collect();
    let t = ref_mimc(&ins[0], &ins[1], &consts);
    let image = if truth {
        t
    } else {
        // also images of related computations
        let c = match s.below(4) {
            0 => ref_mimc(&ins[1], &ins[0], &consts),
            1 if n > 0 => ref_mimc(&ins[0], &ins[1], &consts[..n - 1]),
            _ => other_than(s, &t),
        };
        if feq(&c, &t) {
            &t + &Fe::one()
        } else {
            c
        }
    };
    St::Mimc { ins, image, consts }
}

/// A Poseidon instance with at most `max` gates
pub fn gen_hp(s: &mut Src, w: usize, max: usize, inv: bool) -> Rc<Hp> {
    let sb = match s.below(if inv { 3 } else { 2 }) {
        0 => Sb::Quint,
        1 => Sb::Cube,
        _ => Sb::Inv,
    };
    let per = if sb == Sb::Cube { 2 } else { 3 };
    let (mut rb, mut re) = (s.below(3), s.below(3));
    while per * w * (rb + re) > max {
        if rb > re {
            rb -= 1
        } else {
            re -= 1
        }
    }
    let left = (max - per * w * (rb + re)) / per;
    let cap = [0, 0, 0, 63, 0, 64, 0, 0, 0, 65][w] - rb - re;
    let mut rp = match s.below(4) {
        0 => 0,
        1 | 2 => s.below(4),
        _ => s.below(left + 1),
    }
    .min(left)
    .min(cap);
    if rb + re + rp == 0 {
        rp = 1;
    }
    Rc::new(Hp::new(w, rb, re, rp, sb))
}

pub fn gen_pos(s: &mut Src, truth: bool, max: usize) -> St {
    let k = *s.pick(&[2usize, 4, 8]);
    let hp = gen_hp(s, k + 1, max, true);
    let mut ins: Vec<Fe> = (0..k).map(|_| s.fe()).collect();
    if !truth && hp.sb == Sb::Inv && s.chance(1, 2) {
        // an S-box input that is zero, in the first round
        let keys = &table().keys[&hp.w];
        let i = if hp.rb > 0 || hp.rp == 0 { s.below(k) } else { k - 1 };
        ins[i] = keys[i + 1].negation();
    }
    let (t, z) = hp.hash_z(&ins);
    let out = if truth || z {
        t
    } else {
        let c = match s.below(5) {
            0 => ins[0].clone(),
            1 => {
                let mut st = vec![Fe::zero()];
                st.extend(ins.iter().cloned());
                hp.permute(&st).0[*s.pick(&[0, 2])].clone()
            }
            2 => {
                let mut i2 = ins.clone();
                i2.reverse();
                hp.hash(&i2)
            }
            _ => other_than(s, &t),
        };
        if feq(&c, &t) {
            &t + &Fe::one()
        } else {
            c
        }
    };
    St::Pos { ins, out, hp }
}

/// Index of a tree as a field element from its digits (root down)
pub fn index_of(dg: &[usize], ary: usize) -> Fe {
    let mut r = Fe::zero();
    for d in dg {
        r = &(&r * &fe(ary as u64)) + &fe(*d as u64);
    }
    r
}

pub fn gen_merkle(s: &mut Src, truth: bool, ary: usize, max: usize) -> St {
    // shallow trees with wide hashes or deep ones with narrow hashes
    let deep = s.chance(1, 3);
    let over = if ary == 4 { 14 } else { 40 };
    let (depth, hp) = if deep {
        let hp = Rc::new(Hp::new(ary + 1, 0, 0, 1, *s.pick(&[Sb::Cube, Sb::Quint, Sb::Inv])));
        let top = (max / (over + hp.gates())).max(1);
        (1 + s.below(top), hp)
    } else {
        let d = 1 + s.below(3);
        let per = (max / d).saturating_sub(over).max(8);
        (d, gen_hp(s, ary + 1, per, true))
    };
    let depth = if s.chance(1, 25) { 0 } else { depth };
    let dg: Vec<usize> = {
        let m = s.below(4);
        let d0 = s.below(ary);
        (0..depth)
            .map(|_| match m {
                0 => d0,
                1 => ary - 1,
                _ => s.below(ary),
            })
            .collect()
    };
    let mut idx = index_of(&dg, ary);
    let mut leaf = s.fe();
    let nseed = s.u();
    let plain = s.chance(1, 4);
    let mut nodes: Vec<Vec<Fe>> = (0..depth)
        .map(|l| {
            (0..ary - 1)
                .map(|j| {
                    if plain {
                        fe((nseed >> (8 * (j % 8))) % 3)
                    } else {
                        fe_seed(nseed ^ (l * 16 + j) as u64)
                    }
                })
                .collect()
        })
        .collect();
    let (root, z) = path_root(&hp, &leaf, &idx, &nodes, depth);
    let mut root = root.unwrap();
    if truth {
        if z {
            // the inverse S-box met a zero: no proof exists, use another leaf
            leaf = &leaf + &fe(77);
            let (r, z) = path_root(&hp, &leaf, &idx, &nodes, depth);
            root = r.unwrap();
            if z {
                return gen_merkle_simple(ary);
            }
        }
        return St::Merkle { leaf, idx, nodes, root, depth, hp };
    }
    match s.below(9) {
        0 => leaf = other_than(s, &leaf),
        1 => {
            // another position
            let mut d2 = dg.clone();
            if depth > 0 {
                let l = s.below(depth);
                d2[l] = (d2[l] + 1 + s.below(ary - 1)) % ary;
            }
            idx = index_of(&d2, ary);
        }
        2 => idx = &idx + &pow2(depth * ary.trailing_zeros() as usize),
        3 => idx = &idx + &pow2(s.below(256)),
        4 => idx = &idx - &pow2(depth * ary.trailing_zeros() as usize),
        5 => idx = s.fe(),
        6 if depth > 0 => {
            let (l, j) = (s.below(depth), s.below(ary - 1));
            nodes[l][j] = other_than(s, &nodes[l][j]);
        }
        7 if depth > 1 => nodes.reverse(),
        _ => root = other_than(s, &root),
    }
    let mut st = St::Merkle { leaf, idx, nodes, root, depth, hp };
    if st.truth() {
        if let St::Merkle { root, .. } = &mut st {
            *root = &*root + &Fe::one();
        }
    }
    st
}

fn gen_merkle_simple(ary: usize) -> St {
    let hp = Rc::new(Hp::new(ary + 1, 0, 0, 1, Sb::Quint));
    let nodes = vec![vec![fe(1); ary - 1]];
    let (leaf, idx) = (fe(5), Fe::zero());
    let root = path_root(&hp, &leaf, &idx, &nodes, 1).0.unwrap();
    St::Merkle { leaf, idx, nodes, root, depth: 1, hp }
}

// ---------------------------------------------------------------- driver: true statements

pub fn label_of(s: &mut Src) -> &'static [u8] {
    LABELS[s.below(LABELS.len())]
}

/// Prove step by step
pub fn prove_steps(
    st: &St, bl: Option<Vec<Fe>>, rng: Option<&mut StdRng>, label: &'static [u8], gs: &Gens,
) -> Result<(R1CSProof, Vec<G1>), R1CSError> {
    let mut tr = Transcript::new(label);
    let mut pr = Prover::new(&gs.g, &gs.h, &mut tr);
    let comms = st.prove(&mut pr, bl, rng)?;
    Ok((pr.prove(&gs.gv, &gs.hv)?, comms))
}

pub fn verify_steps(st: &St, proof: &R1CSProof, comms: &[G1], label: &'static [u8], gs: &Gens) -> Result<(), R1CSError> {
    let mut tr = Transcript::new(label);
    let mut v = Verifier::new(&mut tr);
    st.verify(comms.to_vec(), &gs.g, &gs.h, &mut v)?;
    v.verify(proof, &gs.g, &gs.h, &gs.gv, &gs.hv)
}

pub fn gens_for(st: &St) -> &'static Gens {
    gens(st.gates().max(1).next_power_of_two())
}

/// The library's prover with supplied blindings or a generator
pub fn lib_prove(s: &mut Src, st: &St, label: &'static [u8], gs: &Gens) -> Result<(R1CSProof, Vec<G1>), R1CSError> {
    let nb = st.num_blindings();
    let bl: Option<Vec<Fe>> = if s.chance(1, 2) { Some((0..nb).map(|_| s.fe_rand()).collect()) } else { None };
    let mut rng = std_rng(s.u());
    let r = if bl.is_some() && s.chance(1, 2) { None } else { Some(&mut rng) };
    if s.chance(1, 2) {
        prove_steps(st, bl, r, label, gs)
    } else {
        st.gen(bl, r, label, &gs.g, &gs.h, &gs.gv, &gs.hv)
    }
}

/// A true statement is proved and accepted, step by step and by the one-call functions.
pub fn complete(s: &mut Src, st: &St, c: &mut Ctx) -> Result<(R1CSProof, Vec<G1>, &'static [u8]), String> {
    let gs = gens_for(st);
    let label = label_of(s);
    let (proof, comms) = no_panic(|| lib_prove(s, st, label, gs))?.map_err(|e| format!("proving failed: {:?}", e))?;
    if comms.len() != st.num_comms() {
        return Err(format!("{} commitments instead of {}", comms.len(), st.num_comms()));
    }
    let r = if s.chance(1, 2) {
        no_panic(|| verify_steps(st, &proof, &comms, label, gs))?
    } else {
        no_panic(|| st.check(proof.clone(), comms.clone(), label, &gs.g, &gs.h, &gs.gv, &gs.hv))?
    };
    r.map_err(|e| format!("true statement rejected: {:?}", e))?;
    c.evals += 1;
    Ok((proof, comms, label))
}

// ---------------------------------------------------------------- driver: false statements

#[cfg(verif_hooks)]
pub fn vcons(st: &St, comms: &[G1], gs: &Gens) -> Option<(Vec<LinearCombination>, usize, Vec<G1>)> {
    let mut tr = Transcript::new(b"x");
    let mut v = Verifier::new(&mut tr);
    st.verify(comms.to_vec(), &gs.g, &gs.h, &mut v).ok()?;
    Some((v.verif_constraints().to_vec(), v.verif_num_multipliers(), v.verif_commitments().to_vec()))
}
#[cfg(not(verif_hooks))]
pub fn vcons(_: &St, _: &[G1], _: &Gens) -> Option<(Vec<LinearCombination>, usize, Vec<G1>)> {
    None
}

fn as_hint(cs: &RefCS, extra: usize) -> Vec<Fe> {
    let mut h = cs.v.clone();
    for i in 0..cs.n {
        h.push(cs.al[i].clone());
        h.push(cs.ar[i].clone());
        h.push(cs.ao[i].clone());
    }
    for _ in 0..extra {
        h.push(Fe::zero());
    }
    h
}

fn natural_cs(st: &St, variant: usize, label: &'static [u8], gs: &Gens, bl: &[Fe]) -> Option<RefCS> {
    let vals = st.natural_values(variant);
    let mut cs = RefCS::new(Transcript::new(label), true);
    match no_panic(|| st.natural(&mut cs, gs, &vals, bl)) {
        Ok(Ok(())) => Some(cs),
        _ => None,
    }
}

/// A statement is false: no way of proving it known to us is accepted. `related`: a true statement of
/// the same shape, used for guidance only.
pub fn sound(s: &mut Src, st: &St, related: Option<&St>, c: &mut Ctx, attempts: usize) -> Result<(), String> {
    assert!(!st.truth());
    let gs = gens_for(st);
    let label = label_of(s);
    // 1. the library's own prover
    if st.provable_input() && s.chance(1, 3) {
        if let Ok(Ok((proof, comms))) = no_panic(|| lib_prove(s, st, label, gs)) {
            c.evals += 1;
            c.class("library prover on a false statement");
            if no_panic(|| st.check(proof.clone(), comms.clone(), label, &gs.g, &gs.h, &gs.gv, &gs.hv))?.is_ok() {
                return Err("the library's proof of a false statement is accepted".into());
            }
        }
    }
    let nc = st.num_comms();
    let seed = s.u();
    let bl: Vec<Fe> = (0..nc + 8).map(|i| fe_seed(seed ^ (0x77000 + i as u64))).collect();
    let variant = s.below(8);
    // 2. the circuit filled as honestly as possible
    let nat = natural_cs(st, variant, label, gs, &bl);
    let mut rn = {
        let mut k = seed;
        move || {
            k = mix(k);
            fe_seed(k)
        }
    };
    if s.chance(1, 3) {
        if let Some(cs) = natural_cs(st, variant, label, gs, &bl) {
            if cs.n.next_power_of_two() <= gs.gv.as_slice().len() {
                let comms: Vec<G1> = cs.vp[..nc].to_vec();
                let rp = ref_prove(cs, gs, &Opts::default(), &mut rn).map_err(|e| format!("{:?}", e))?;
                let proof = rp.parts.proof();
                c.evals += 1;
                c.class("honest-looking assignment");
                if no_panic(|| st.check(proof, comms.clone(), label, &gs.g, &gs.h, &gs.gv, &gs.hv))?.is_ok() {
                    return Err(format!(
                        "proof of a false statement from the natural assignment is accepted (unsatisfied by the reference: {:?})",
                        rp.unsat
                    ));
                }
            }
        }
    }
    // 3. search for a witness of the constraints the verifier holds
    let dummy: Vec<G1> = vec![gs.g.clone(); nc];
    let (cons, n, points) = match no_panic(|| vcons(st, &dummy, gs))? {
        Some(x) => x,
        None => return Ok(()),
    };
    let m = points.len();
    if m < nc {
        return Ok(());
    }
    // when the public result is wrong, let it vary: any other result is a forgery as well
    let other = st
        .result()
        .and_then(|r| st.with_result(&(&r + &Fe::one())))
        .and_then(|o| vcons(&o, &dummy, gs));
    let sys = Sys::new(m, n, &cons, other.as_ref().map(|o| o.0.as_slice()));
    let extra = sys.nv - m - 3 * n;
    let mut fixed: Vec<(usize, Fe)> = match st {
        // all commitments are part of the statement (paths of a weak hash have many preimages)
        St::Merkle { .. } => st.natural_values(0).into_iter().enumerate().collect(),
        _ => st.primary(),
    };
    for i in nc..m {
        fixed.push((i, Fe::zero()));
    }
    let mut hints = vec![];
    if let Some(cs) = &nat {
        if cs.v.len() == m && cs.n == n {
            hints.push(as_hint(cs, extra));
        }
    }
    if let Some(r) = related {
        if let Some(cs) = natural_cs(r, 0, label, gs, &bl) {
            if cs.v.len() == m && cs.n == n {
                hints.push(as_hint(&cs, extra));
            }
        }
    }
    let at = |x: &[Fe]| -> St {
        match sys.param {
            Some(p) => st.with_result(&(&st.result().unwrap() + &x[p])).unwrap(),
            None => st.clone(),
        }
    };
    let accept = |x: &[Fe]| !at(x).truth();
    let out = solve(&sys, &fixed, &hints, seed ^ 0x51, attempts, &accept);
    c.class(if out.definitive { "search: decided by propagation" } else { "search: by branching" });
    c.evals += out.attempts;
    if let Some(x) = out.found {
        let forged = at(&x);
        // confirm with a real proof
        let mut blind: Vec<Fe> = bl[..nc].to_vec();
        blind.resize(m, Fe::zero());
        let vals: Vec<Fe> = x[..m].to_vec();
        let comms = St::points(gs, &vals[..nc], &blind[..nc]);
        if let Some((cons, n, points)) = vcons(&forged, &comms, gs) {
            let mut cs = RefCS::new(Transcript::new(label), true);
            for (i, p) in points.iter().enumerate() {
                cs.commit_point(p.clone());
                cs.v.push(vals[i].clone());
                cs.vb.push(blind[i].clone());
            }
            cs.cons = cons;
            cs.n = n;
            for i in 0..n {
                cs.al.push(x[m + 3 * i].clone());
                cs.ar.push(x[m + 3 * i + 1].clone());
                cs.ao.push(x[m + 3 * i + 2].clone());
            }
            let gs2 = gens(n.max(1).next_power_of_two().max(gs.gv.as_slice().len()));
            let rp = ref_prove(cs, gs2, &Opts::default(), &mut rn).map_err(|e| format!("{:?}", e))?;
            let proof = rp.parts.proof();
            if no_panic(|| forged.check(proof, comms.clone(), label, &gs2.g, &gs2.h, &gs2.gv, &gs2.hv))?.is_ok() {
                return Err(format!("accepted proof of a false statement: {}", forged.desc()));
            }
            c.class("search: witness not confirmed");
        }
    }
    Ok(())
}

/// An accepted proof does not serve for another statement that is false for the committed values.
pub fn transfer(s: &mut Src, st: &St, other: &St, c: &mut Ctx) -> Result<(), String> {
    if !st.truth() || other.truth() || st.num_comms() != other.num_comms() {
        return Ok(());
    }
    let (proof, comms, label) = complete(s, st, c)?;
    let gs = if gens_for(st).gv.as_slice().len() > gens_for(other).gv.as_slice().len() { gens_for(st) } else { gens_for(other) };
    if no_panic(|| other.check(proof, comms, label, &gs.g, &gs.h, &gs.gv, &gs.hv))?.is_ok() {
        return Err(format!("proof of [{}] accepted for [{}]", st.desc(), other.desc()));
    }
    Ok(())
}

// ---------------------------------------------------------------- the properties

type GenFn = fn(&mut Src, bool) -> St;

fn run_true(s: &mut Src, c: &mut Ctx, g: GenFn) -> Result<(), String> {
    let st = g(s, true);
    if !st.truth() {
        // no satisfying assignment exists (a zero under the inverse S-box)
        c.case(false, st.desc());
        return Ok(());
    }
    c.case(true, st.desc());
    c.class(st.kind());
    complete(s, &st, c).map(|_| ()).map_err(|e| format!("{} [{}]", e, st.desc()))
}

fn run_false(s: &mut Src, c: &mut Ctx, g: GenFn) -> Result<(), String> {
    let st = g(s, false);
    if st.truth() {
        c.case(false, st.desc());
        return Ok(());
    }
    c.case(true, st.desc());
    c.class(st.kind());
    let rel = related(&st);
    sound(s, &st, rel.as_ref(), c, 12).map_err(|e| format!("{} [{}]", e, st.desc()))
}

/// A true statement of the same shape
fn related(st: &St) -> Option<St> {
    let mut r = st.clone();
    match &mut r {
        St::Bound { val, lower, .. } => *val = fe(*lower),
        St::SetMem { val, set } => *val = set.get(0)?.clone(),
        St::SetAlt { val, set } => *val = fe(*set.get(0)?),
        St::NonMem { val, .. } => *val = fe_seed(99),
        St::NonZero { val } => *val = Fe::one(),
        St::Hamming { .. } | St::Help { .. } => {}
        St::Mimc { ins, image, consts } => *image = ref_mimc(&ins[0], &ins[1], consts),
        St::Pos { ins, out, hp } => *out = hp.hash(ins),
        St::Merkle { leaf, idx, nodes, root, depth, hp } => {
            let d = low_digits(idx, hp.w - 1, *depth);
            *idx = index_of(&d, hp.w - 1);
            *root = path_root(hp, leaf, idx, nodes, *depth).0?;
        }
    }
    Some(r)
}

/// A building block on its own
pub fn gen_help(s: &mut Src, truth: bool, kinds: &[usize], max: usize) -> St {
    let near = |s: &mut Src, x: &Fe| -> Fe {
        match s.below(4) {
            0 => x + &Fe::one(),
            1 => x - &Fe::one(),
            2 => x + &pow2(s.below(254)),
            _ => s.fe(),
        }
    };
    let st = match *s.pick(kinds) {
        0 => {
            let v = fe(s.below(2) as u64);
            let v = if truth { v } else { near(s, &v) };
            St::Help { h: Helper::Bit, vals: vec![v] }
        }
        1 => {
            let n = set_size(s, max) - if s.chance(1, 20) { 1 } else { 0 };
            let sum = s.int();
            let seed = s.u();
            let mut vals: Vec<Fe> = (0..n).map(|i| if i < 16 { s.fe() } else { fe_seed(seed ^ i as u64) }).collect();
            if n > 0 {
                let k = s.below(n);
                let mut t = fe(sum);
                for (i, v) in vals.iter().enumerate() {
                    if i != k {
                        t = &t - v;
                    }
                }
                vals[k] = t;
                if !truth {
                    let k = s.below(n);
                    vals[k] = near(s, &vals[k]);
                }
                St::Help { h: Helper::Sum(sum), vals }
            } else {
                St::Help { h: Helper::Sum(if truth { 0 } else { sum.max(1) }), vals }
            }
        }
        2 => {
            let n = match s.below(5) {
                0 => s.below(4),
                1 => 60 + s.below(10),
                2 => s.below(max.min(254) + 1),
                _ => 1 + s.below(24),
            }
            .min(max);
            let v = match s.below(6) {
                0 => Fe::zero(),
                1 => &pow2(n) - &Fe::one(),
                2 if n > 0 => pow2(n - 1),
                _ => {
                    let mut v = Fe::zero();
                    for i in 0..n {
                        if s.chance(1, 2) {
                            v = &v + &pow2(i);
                        }
                    }
                    v
                }
            };
            let v = if truth {
                v
            } else {
                match s.below(5) {
                    0 => pow2(n),
                    1 => v.negation(),
                    2 => &v + &pow2(n + s.below(254 - n)),
                    3 => Fe::one().negation(),
                    _ => s.fe(),
                }
            };
            St::Help { h: Helper::Pos(n), vals: vec![v] }
        }
        3 => {
            let n = set_size(s, max);
            let mut items: Vec<u64> = (0..n).map(|_| s.int()).collect();
            if n > 1 && s.chance(1, 4) {
                let (a, b) = (s.below(n), s.below(n));
                items[a] = items[b];
            }
            let k = s.below(n);
            let v = fe(items[k]);
            let mut vals = vec![Fe::zero(); n];
            vals[k] = Fe::one();
            // weight spread over equal items
            for i in 0..n {
                if i != k && items[i] == items[k] {
                    let x = s.fe();
                    vals[k] = &vals[k] - &x;
                    vals[i] = x;
                }
            }
            vals.push(v);
            if !truth {
                let i = s.below(n + 1);
                vals[i] = near(s, &vals[i]);
            }
            St::Help { h: Helper::Prod(items), vals }
        }
        4 => {
            let a = s.fe_nz();
            let b = a.inverse();
            let vals = if truth {
                vec![a, b]
            } else {
                match s.below(4) {
                    0 => vec![Fe::zero(), near(s, &b)],
                    1 => vec![a, Fe::zero()],
                    2 => vec![near(s, &a), b],
                    _ => vec![a, near(s, &b)],
                }
            };
            St::Help { h: Helper::NonZero, vals }
        }
        _ => {
            let a = s.fe();
            let b = if truth { a.clone() } else { near(s, &a) };
            St::Help { h: Helper::Scalar(a), vals: vec![b] }
        }
    };
    st
}

fn help_true(s: &mut Src, c: &mut Ctx, kinds: &[usize], max: usize) -> Result<(), String> {
    let st = gen_help(s, true, kinds, max);
    c.case(true, st.desc());
    if !st.truth() {
        return Err(format!("generator: false statement {}", st.desc()));
    }
    c.class(st.kind());
    complete(s, &st, c).map(|_| ()).map_err(|e| format!("{} [{}]", e, st.desc()))
}
fn help_false(s: &mut Src, c: &mut Ctx, kinds: &[usize], max: usize) -> Result<(), String> {
    let st = gen_help(s, false, kinds, max);
    if st.truth() {
        c.case(false, st.desc());
        return Ok(());
    }
    c.case(true, st.desc());
    c.class(st.kind());
    let rel = gen_help(s, true, kinds, max);
    sound(s, &st, Some(&rel), c, 12).map_err(|e| format!("{} [{}]", e, st.desc()))
}
fn p11_help_true(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    help_true(s, c, &[2], 254)
}
fn p11_help_false(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    help_false(s, c, &[2], 250)
}
fn p12_help_true(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    help_true(s, c, &[0, 1, 3], 40)
}
fn p12_help_false(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    help_false(s, c, &[0, 1, 3], 24)
}
fn p13_help_true(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    help_true(s, c, &[4, 5], 4)
}
fn p13_help_false(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    help_false(s, c, &[4, 5], 4)
}

// ------------------------------------------------ sizes far beyond those of the unit tests

fn big(s: &mut Src, lo: usize, hi: usize) -> usize {
    // powers of two and their neighbours, and anything between
    match s.below(4) {
        0 => {
            let mut k = vec![];
            let mut p = 1;
            while p <= hi {
                if p >= lo {
                    k.push(p);
                }
                p *= 2;
            }
            if k.is_empty() {
                lo
            } else {
                (*s.pick(&k) + s.below(3)).saturating_sub(1).max(lo).min(hi)
            }
        }
        _ => lo + s.below(hi - lo + 1),
    }
}
fn big_fes(s: &mut Src, n: usize) -> Vec<Fe> {
    let seed = s.u();
    let mut v: Vec<Fe> = (0..n).map(|i| fe_seed(seed ^ i as u64)).collect();
    for _ in 0..4 {
        let i = s.below(n);
        v[i] = s.fe();
    }
    v
}
fn any_pos(s: &mut Src, n: usize) -> usize {
    match s.below(4) {
        0 => n - 1 - s.below(n.min(4)),
        _ => s.below(n),
    }
}
fn big_mem(s: &mut Src, t: bool) -> St {
    let n = big(s, 63, 600);
    let set = big_fes(s, n);
    let val = if t { set[any_pos(s, n)].clone() } else { outside(s, &set) };
    St::SetMem { val, set }
}
fn big_alt(s: &mut Src, t: bool) -> St {
    let n = big(s, 25, 300);
    let seed = s.u();
    let set: Vec<u64> = {
        let sh = s.below(50);
        let mut v: Vec<u64> = vec![];
        for i in 0..n {
            let mut x = mix(seed ^ i as u64) >> sh;
            while v.contains(&x) {
                x += 1;
            }
            v.push(x);
        }
        v
    };
    let f: Vec<Fe> = set.iter().map(|x| fe(*x)).collect();
    let val = if t { f[any_pos(s, n)].clone() } else { outside(s, &f) };
    St::SetAlt { val, set }
}
fn big_nonmem(s: &mut Src, t: bool) -> St {
    let n = big(s, 21, 300);
    let set = big_fes(s, n);
    let val = if t { outside(s, &set) } else { set[any_pos(s, n)].clone() };
    St::NonMem { val, set }
}
fn big_ham(s: &mut Src, t: bool) -> St {
    let n = big(s, 21, 400);
    let orig = big_fes(s, n);
    let seed = s.u();
    let m = s.below(4);
    let new: Vec<Fe> = orig
        .iter()
        .enumerate()
        .map(|(i, x)| match m {
            0 => x.clone(),
            1 => x + &Fe::one(),
            _ if mix(seed ^ i as u64) & 1 == 0 => x.clone(),
            _ => fe_seed(seed ^ i as u64),
        })
        .collect();
    let c = orig.iter().zip(new.iter()).filter(|(a, b)| !feq(a, b)).count() as u64;
    let count = if t {
        c
    } else {
        let k = match s.below(5) {
            0 => c + 1,
            1 => c.wrapping_sub(1),
            2 => c & 63,
            3 => c + 256,
            _ => s.u() % (n as u64 + 1),
        };
        if k == c {
            c + 1
        } else {
            k
        }
    };
    St::Hamming { orig, new, count }
}
fn big_mimc(s: &mut Src, t: bool) -> St {
    let n = big(s, 25, 400);
    let ins = vec![s.fe(), s.fe()];
    let consts = big_fes(s, n);
    let h = ref_mimc(&ins[0], &ins[1], &consts);
    let image = if t {
        h
    } else {
        let c = match s.below(3) {
            0 => ref_mimc(&ins[0], &ins[1], &consts[..n - 1 - s.below(8)]),
            _ => other_than(s, &h),
        };
        if feq(&c, &h) {
            &h + &Fe::one()
        } else {
            c
        }
    };
    St::Mimc { ins, image, consts }
}
fn run_big(s: &mut Src, c: &mut Ctx, g: GenFn) -> Result<(), String> {
    if s.chance(1, 2) {
        return run_true(s, c, g);
    }
    let st = g(s, false);
    if st.truth() {
        c.case(false, st.desc());
        return Ok(());
    }
    c.case(true, st.desc());
    c.class(st.kind());
    let rel = related(&st);
    sound(s, &st, rel.as_ref(), c, 2).map_err(|e| format!("{} [{}]", e, st.desc()))
}
fn p12_big_mem(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_big(s, c, big_mem)
}
fn p12_big_alt(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_big(s, c, big_alt)
}
fn p13_big(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_big(s, c, big_nonmem)
}
fn p14_big(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_big(s, c, big_ham)
}
fn p15_big(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_big(s, c, big_mimc)
}
fn p15_native_big(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    use bulletproofs_amcl::r1cs::gadgets::helper_constraints::mimc::mimc;
    let n = big(s, 40, 1200);
    let (l, r) = (s.fe(), s.fe());
    let k = big_fes(s, n);
    c.case(true, format!("{} rounds {} {}", n, l.to_hex(), r.to_hex()));
    let x = no_panic(|| mimc(&l, &r, &k, n))?;
    if !feq(&x, &ref_mimc(&l, &r, &k)) {
        return Err(format!("hash differs from the recurrence for {} rounds", n));
    }
    Ok(())
}

fn bound_small(s: &mut Src, t: bool) -> St {
    gen_bound(s, t, 12)
}
fn bound_full(s: &mut Src, t: bool) -> St {
    gen_bound(s, t, 64)
}

fn p11_true(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_true(s, c, bound_small)
}
fn p11_true_wide(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_true(s, c, bound_full)
}
fn p11_false(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_false(s, c, bound_small)
}
fn p11_false_wide(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_false(s, c, bound_full)
}
fn p11_transfer(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let st = gen_bound(s, true, 16);
    c.case(true, st.desc());
    let mut o = st.clone();
    if let St::Bound { val, lower, upper, bits } = &mut o {
        let v = as_u64(val).unwrap();
        if s.chance(1, 2) && v < u64::max_value() {
            *lower = v + 1;
            if *upper < *lower {
                *upper = *lower;
            }
        } else if v > 0 {
            *upper = v - 1;
            if *upper < *lower {
                *lower = *upper;
            }
        }
        let _ = bits;
    }
    transfer(s, &st, &o, c)
}

pub fn p11() -> Prop {
    Prop {
        id: "P11",
        rule: "Random bounds, widths, bit widths (0 to 64) and values. True statements are proved by the library and \
               verified (step by step and by the one-call functions). For false ones: the library's prover, the \
               circuit filled with the natural assignment, and a search for a witness of the verifier's constraints \
               with the committed value fixed; every candidate is turned into a proof and put to the library's \
               verifier. Proofs are also put to other bounds. The range building block is checked alone for widths 0 to 254. Non-trivial: every case (distinct statement).",
        subs: vec![
            Sub { name: "true", f: p11_true, quick: 150, thorough: 4000, len: 60, fixed: vec![] },
            Sub { name: "true_wide", f: p11_true_wide, quick: 40, thorough: 1500, len: 60, fixed: vec![] },
            Sub { name: "false", f: p11_false, quick: 700, thorough: 12000, len: 60, fixed: vec![] },
            Sub { name: "false_wide", f: p11_false_wide, quick: 250, thorough: 5000, len: 60, fixed: vec![] },
            Sub { name: "transfer", f: p11_transfer, quick: 60, thorough: 1500, len: 60, fixed: vec![] },
            Sub { name: "positive_true", f: p11_help_true, quick: 60, thorough: 1500, len: 120, fixed: vec![] },
            Sub { name: "positive_false", f: p11_help_false, quick: 200, thorough: 4000, len: 120, fixed: vec![] },
        ],
    }
}

fn mem(s: &mut Src, t: bool) -> St {
    gen_set_mem(s, t, 36)
}
fn alt(s: &mut Src, t: bool) -> St {
    gen_set_alt(s, t, 24)
}
fn p12_mem_true(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_true(s, c, mem)
}
fn p12_mem_false(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_false(s, c, mem)
}
fn p12_alt_true(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_true(s, c, alt)
}
fn p12_alt_false(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_false(s, c, alt)
}
fn p12_transfer(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let which = s.chance(1, 2);
    let st = if which { gen_set_mem(s, true, 12) } else { gen_set_alt(s, true, 12) };
    c.case(true, st.desc());
    let mut o = st.clone();
    match &mut o {
        St::SetMem { val, set } => {
            let v = val.clone();
            for x in set.iter_mut() {
                if feq(x, &v) {
                    *x = other_than(s, x);
                }
            }
        }
        St::SetAlt { val, set } => {
            let v = as_u64(val).unwrap();
            for x in set.iter_mut() {
                if *x == v {
                    *x = x.wrapping_add(1 + s.u() % 5);
                }
            }
        }
        _ => {}
    }
    transfer(s, &st, &o, c)
}

pub fn p12() -> Prop {
    Prop {
        id: "P12",
        rule: "Random sets (sizes 1 to 36, special and repeated elements; distinct 64-bit elements for the one-hot \
               variant) and values in and near them, any position. True statements are proved and verified; for \
               false ones the library's prover, natural assignments (one-hot bit at any position or none) and a \
               search for a witness of the verifier's constraints. Proofs are put to sets without the value. \
               The same with large sets (up to 600 and 300 elements) and for the building blocks alone (bit, sum, weighted \
               selection). \
               Non-trivial: every case.",
        subs: vec![
            Sub { name: "mem_true", f: p12_mem_true, quick: 160, thorough: 4000, len: 60, fixed: vec![] },
            Sub { name: "mem_false", f: p12_mem_false, quick: 500, thorough: 10000, len: 60, fixed: vec![] },
            Sub { name: "alt_true", f: p12_alt_true, quick: 120, thorough: 3000, len: 60, fixed: vec![] },
            Sub { name: "alt_false", f: p12_alt_false, quick: 500, thorough: 10000, len: 60, fixed: vec![] },
            Sub { name: "transfer", f: p12_transfer, quick: 80, thorough: 2000, len: 60, fixed: vec![] },
            Sub { name: "parts_true", f: p12_help_true, quick: 80, thorough: 2000, len: 120, fixed: vec![] },
            Sub { name: "parts_false", f: p12_help_false, quick: 300, thorough: 6000, len: 120, fixed: vec![] },
            Sub { name: "mem_large", f: p12_big_mem, quick: 12, thorough: 300, len: 60, fixed: vec![] },
            Sub { name: "alt_large", f: p12_big_alt, quick: 12, thorough: 300, len: 60, fixed: vec![] },
        ],
    }
}

fn nonmem(s: &mut Src, t: bool) -> St {
    gen_non_mem(s, t, 20)
}
fn p13_nm_true(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_true(s, c, nonmem)
}
fn p13_nm_false(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_false(s, c, nonmem)
}
fn p13_nz_true(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_true(s, c, gen_non_zero)
}
fn p13_nz_false(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_false(s, c, gen_non_zero)
}
fn p13_transfer(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let st = gen_non_mem(s, true, 10);
    c.case(true, st.desc());
    let mut o = st.clone();
    if let St::NonMem { val, set } = &mut o {
        if !set.is_empty() {
            let i = s.below(set.len());
            set[i] = val.clone();
        }
    }
    transfer(s, &st, &o, c)
}

pub fn p13() -> Prop {
    Prop {
        id: "P13",
        rule: "Random sets (sizes 0 to 20) and values in, near and outside them, and values zero and non-zero in the \
               field. True statements are proved and verified; for false ones the library's prover, the natural \
               assignment and a search for a witness of the verifier's constraints. Also sets of up to 300 elements and the building blocks \
               alone (inverse, equality with a scalar). Non-trivial: every case.",
        subs: vec![
            Sub { name: "nonmember_true", f: p13_nm_true, quick: 160, thorough: 4000, len: 60, fixed: vec![] },
            Sub { name: "nonmember_false", f: p13_nm_false, quick: 500, thorough: 10000, len: 60, fixed: vec![] },
            Sub { name: "nonzero_true", f: p13_nz_true, quick: 80, thorough: 2000, len: 20, fixed: vec![] },
            Sub { name: "nonzero_false", f: p13_nz_false, quick: 80, thorough: 1000, len: 20, fixed: vec![] },
            Sub { name: "transfer", f: p13_transfer, quick: 60, thorough: 1500, len: 60, fixed: vec![] },
            Sub { name: "parts_true", f: p13_help_true, quick: 60, thorough: 1500, len: 40, fixed: vec![] },
            Sub { name: "parts_false", f: p13_help_false, quick: 120, thorough: 3000, len: 40, fixed: vec![] },
            Sub { name: "large", f: p13_big, quick: 16, thorough: 400, len: 60, fixed: vec![] },
        ],
    }
}

fn ham(s: &mut Src, t: bool) -> St {
    gen_hamming(s, t, 20)
}
fn p14_true(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_true(s, c, ham)
}
fn p14_false(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_false(s, c, ham)
}
fn p14_transfer(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let st = gen_hamming(s, true, 8);
    c.case(true, st.desc());
    let mut o = st.clone();
    if let St::Hamming { orig, new, count } = &mut o {
        if s.chance(1, 2) || orig.is_empty() {
            *count = count.wrapping_add(*s.pick(&[1, u64::max_value()]));
        } else {
            // another public vector with another distance
            let i = s.below(orig.len());
            if feq(&orig[i], &new[i]) {
                new[i] = &new[i] + &Fe::one();
            } else {
                new[i] = orig[i].clone();
            }
        }
    }
    transfer(s, &st, &o, c)
}
/// Vectors of different length are an error on both sides
fn p14_lengths(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let (a, b) = (s.below(7), s.below(7));
    let orig: Vec<Fe> = (0..a).map(|_| s.fe()).collect();
    let new: Vec<Fe> = (0..b).map(|i| if i < a && s.chance(1, 2) { orig[i].clone() } else { s.fe() }).collect();
    let cnt = s.below(8) as u64;
    c.case(a != b, format!("lengths {} {} count {}", a, b, cnt));
    let st = St::Hamming { orig, new, count: cnt };
    let gs = gens(64);
    let r = no_panic(|| st.gen(None, None, b"l", &gs.g, &gs.h, &gs.gv, &gs.hv))?;
    if a != b && r.is_ok() {
        return Err(format!("prover took vectors of length {} and {}", a, b));
    }
    // the verifier with a wrong number of commitments, over a valid proof of a statement of length a
    if a != b {
        let t = gen_hamming_of(a, s);
        let (proof, comms, label) = complete(s, &t, c)?;
        if let (St::Hamming { new, .. }, St::Hamming { count, .. }) = (&st, &t) {
            let o = St::Hamming { orig: vec![], new: new.clone(), count: *count };
            match no_panic(|| o.check(proof, comms, label, &gs.g, &gs.h, &gs.gv, &gs.hv))? {
                Ok(()) => return Err("verifier took vectors of different length".into()),
                Err(_) => {}
            }
        }
    }
    Ok(())
}
fn gen_hamming_of(n: usize, s: &mut Src) -> St {
    let orig: Vec<Fe> = (0..n).map(|_| s.fe()).collect();
    let new: Vec<Fe> = orig.iter().map(|x| if s.chance(1, 2) { x.clone() } else { x + &Fe::one() }).collect();
    let count = orig.iter().zip(new.iter()).filter(|(a, b)| !feq(a, b)).count() as u64;
    St::Hamming { orig, new, count }
}

pub fn p14() -> Prop {
    Prop {
        id: "P14",
        rule: "Random vectors (length 0 to 20, and up to 400) with any mix of equal and different positions and claimed counts: the \
               true one, neighbours, extremes and any 64-bit integer. True statements are proved and verified; for \
               false ones the library's prover, the natural assignment and a search for a witness of the \
               verifier's constraints. Pairs of different length must give an error. Non-trivial: every case \
               (lengths: those that differ).",
        subs: vec![
            Sub { name: "true", f: p14_true, quick: 160, thorough: 4000, len: 120, fixed: vec![] },
            Sub { name: "false", f: p14_false, quick: 600, thorough: 12000, len: 120, fixed: vec![] },
            Sub { name: "transfer", f: p14_transfer, quick: 60, thorough: 1500, len: 80, fixed: vec![] },
            Sub { name: "lengths", f: p14_lengths, quick: 80, thorough: 1500, len: 80, fixed: vec![] },
            Sub { name: "large", f: p14_big, quick: 16, thorough: 400, len: 60, fixed: vec![] },
        ],
    }
}

fn mimc_g(s: &mut Src, t: bool) -> St {
    gen_mimc(s, t, 24)
}
fn p15_true(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_true(s, c, mimc_g)
}
fn p15_false(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_false(s, c, mimc_g)
}
fn p15_native(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    use bulletproofs_amcl::r1cs::gadgets::helper_constraints::mimc::mimc;
    let n = s.below(40);
    let (l, r) = (s.fe(), s.fe());
    let k: Vec<Fe> = (0..n).map(|_| s.fe()).collect();
    c.case(n > 0, format!("{} rounds {} {}", n, l.to_hex(), r.to_hex()));
    let x = no_panic(|| mimc(&l, &r, &k, n))?;
    if !feq(&x, &ref_mimc(&l, &r, &k)) {
        return Err(format!("hash differs from the recurrence for {} rounds", n));
    }
    Ok(())
}
/// The circuit over inputs that are arbitrary linear combinations, also chained, as a part of a larger one
fn p15_eval(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    use bulletproofs_amcl::r1cs::gadgets::helper_constraints::mimc::enforce_mimc_2_inputs;
    use bulletproofs_amcl::r1cs::ConstraintSystem;
    let gs = gens(64);
    let mut cs = RefCS::new(Transcript::new(b"x"), true);
    for i in 0..s.below(3) {
        cs.allocate(Some(fe(i as u64))).unwrap();
    }
    let (a, b) = (s.fe(), s.fe());
    let mut l = lc_of_value(&mut cs, s, gs, &a);
    let mut r = lc_of_value(&mut cs, s, gs, &b);
    let (mut lv, mut rv) = (a, b);
    let mut rounds = vec![];
    for _ in 0..s.range(1, 3) {
        let n = s.below(20);
        let k: Vec<Fe> = (0..n).map(|_| s.fe()).collect();
        rounds.push(n);
        let want = ref_mimc(&lv, &rv, &k);
        let before = cs.n;
        let o = no_panic(|| enforce_mimc_2_inputs(&mut cs, l.clone(), r.clone(), n, &k))?.map_err(|e| format!("{:?}", e))?;
        if !feq(&cs.eval(&o), &want) {
            return Err(format!("circuit of {} rounds differs from the hash (input terms, chained {:?})", n, rounds));
        }
        if n > 0 && cs.n == before {
            return Err("no gates".into());
        }
        if s.chance(1, 2) {
            r = l;
            rv = lv;
            l = o;
        } else {
            r = o;
            rv = want.clone();
            lv = lv.clone();
            continue;
        }
        lv = want;
    }
    c.case(rounds.iter().any(|x| *x > 0), format!("rounds {:?} {} {}", rounds, lv.to_hex(), rv.to_hex()));
    if let Some(u) = cs.unsatisfied() {
        return Err(format!("honest assignment does not satisfy {} for rounds {:?}", u, rounds));
    }
    Ok(())
}

/// Wrong numbers of inputs or blindings are an error
fn p15_lengths(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let st = gen_mimc(s, true, 4);
    let (ni, nb) = (s.below(5), s.below(5));
    c.case(ni != 2 || nb != 2, format!("{} inputs {} blindings", ni, nb));
    let mut o = st.clone();
    if let St::Mimc { ins, .. } = &mut o {
        while ins.len() > ni {
            ins.pop();
        }
        while ins.len() < ni {
            ins.push(s.fe());
        }
    }
    let bl: Vec<Fe> = (0..nb).map(|_| s.fe_rand()).collect();
    let gs = gens(64);
    let r = no_panic(|| o.gen(Some(bl), None, b"l", &gs.g, &gs.h, &gs.gv, &gs.hv))?;
    if (ni != 2 || nb != 2) && r.is_ok() {
        return Err(format!("{} inputs and {} blindings accepted", ni, nb));
    }
    if ni == 2 && nb == 2 {
        r.map_err(|e| format!("refused: {:?}", e))?;
    }
    Ok(())
}

pub fn p15() -> Prop {
    Prop {
        id: "P15",
        rule: "Random inputs, constants and round counts (0 to 1200 native, 0 to 400 in circuits). The hash is compared \
               with the documented recurrence; preimage proofs are made and verified; for wrong images the library's \
               prover, the natural assignment and a search for a second image the verifier's constraints admit. \
               Non-trivial: at least one round (native), otherwise every case.",
        subs: vec![
            Sub { name: "native", f: p15_native, quick: 400, thorough: 10000, len: 100, fixed: vec![] },
            Sub { name: "true", f: p15_true, quick: 160, thorough: 4000, len: 80, fixed: vec![] },
            Sub { name: "false", f: p15_false, quick: 400, thorough: 10000, len: 80, fixed: vec![] },
            Sub { name: "evaluate", f: p15_eval, quick: 300, thorough: 8000, len: 120, fixed: vec![] },
            Sub { name: "lengths", f: p15_lengths, quick: 80, thorough: 1000, len: 40, fixed: vec![] },
            Sub { name: "large", f: p15_big, quick: 16, thorough: 400, len: 60, fixed: vec![] },
            Sub { name: "native_large", f: p15_native_big, quick: 60, thorough: 1500, len: 60, fixed: vec![] },
        ],
    }
}

fn pos_g(s: &mut Src, t: bool) -> St {
    gen_pos(s, t, 96)
}
fn pos_small(s: &mut Src, t: bool) -> St {
    gen_pos(s, t, 60)
}
fn p17_true(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_true(s, c, pos_g)
}
fn p17_false(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_false(s, c, pos_small)
}
/// The circuits evaluate to the native result, over the reference constraint system
/// A linear combination of the given value: a commitment, wire, constant, or several terms with repeated
/// variables and zero weights
fn lc_of_value(cs: &mut RefCS, s: &mut Src, gs: &Gens, x: &Fe) -> LinearCombination {
    use bulletproofs_amcl::r1cs::ConstraintSystem;
    match s.below(5) {
        0 => cs.commit_value(gs, x, &Fe::zero()).into(),
        1 => cs.allocate(Some(x.clone())).unwrap().into(),
        2 => LinearCombination::from(x.clone()),
        _ => {
            let mut rest = x.clone();
            let mut lc = LinearCombination::default();
            let mut last: Option<(bulletproofs_amcl::r1cs::Variable, Fe)> = None;
            for _ in 0..s.range(1, 4) {
                let w = s.fe();
                let (v, val) = match last.clone() {
                    Some(l) if s.chance(1, 3) => l,
                    _ => {
                        let val = s.fe();
                        let v = if s.chance(1, 2) {
                            cs.commit_value(gs, &val, &Fe::zero())
                        } else {
                            cs.allocate(Some(val.clone())).unwrap()
                        };
                        (v, val)
                    }
                };
                last = Some((v, val.clone()));
                rest = &rest - &(&w * &val);
                lc = lc + [(v, w)].iter().collect::<LinearCombination>();
            }
            if s.chance(1, 2) {
                lc + LinearCombination::from(rest)
            } else {
                LinearCombination::from(rest) + lc
            }
        }
    }
}

fn p17_eval(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::*;
    use bulletproofs_amcl::r1cs::ConstraintSystem;
    let w = *s.pick(&[3usize, 5, 9]);
    let big = s.chance(1, 12);
    let hp = if big {
        let sb = *s.pick(&[Sb::Quint, Sb::Cube, Sb::Inv]);
        Rc::new(Hp::new(w, 4, 4, *s.pick(&[20usize, 55]), sb))
    } else {
        gen_hp(s, w, 120, true)
    };
    let ins: Vec<Fe> = (0..w).map(|_| s.fe()).collect();
    c.case(true, format!("permutation {} {}", hp.desc(), ins[1].to_hex()));
    let mut cs = RefCS::new(Transcript::new(b"x"), true);
    let gs = gens(64);
    let pre = s.below(3);
    for i in 0..pre {
        cs.allocate(Some(fe(i as u64))).unwrap();
    }
    let lcs: Vec<LinearCombination> = ins
        .iter()
        .map(|x| {
            // inputs as commitments, wires or constants
            lc_of_value(&mut cs, s, gs, x)
        })
        .collect();
    let (want, z) = hp.permute(&ins);
    if z {
        return Ok(());
    }
    let out = no_panic(|| Poseidon_permutation_constraints(&mut cs, lcs, &hp.params, &hp.sb.lib()))?
        .map_err(|e| format!("{:?}", e))?;
    if out.len() != w {
        return Err("wrong number of outputs".into());
    }
    for i in 0..w {
        if !feq(&cs.eval(&out[i]), &want[i]) {
            return Err(format!("circuit output {} differs from the hash for {}", i, hp.desc()));
        }
    }
    if let Some(u) = cs.unsatisfied() {
        return Err(format!("honest assignment does not satisfy {} for {}", u, hp.desc()));
    }
    // hash circuits
    let k = w - 1;
    let z0: LinearCombination = cs.commit_value(gs, &Fe::zero(), &Fe::zero()).into();
    let l: Vec<LinearCombination> = ins[..k].iter().map(|x| cs.commit_value(gs, x, &Fe::zero()).into()).collect();
    let (want, z) = hp.hash_z(&ins[..k]);
    if z {
        return Ok(());
    }
    let o = no_panic(|| match k {
        2 => Poseidon_hash_2_constraints(&mut cs, l[0].clone(), l[1].clone(), vec![z0], &hp.params, &hp.sb.lib()),
        4 => Poseidon_hash_4_constraints(&mut cs, l, vec![z0], &hp.params, &hp.sb.lib()),
        _ => Poseidon_hash_8_constraints(&mut cs, l, z0, &hp.params, &hp.sb.lib()),
    })?
    .map_err(|e| format!("{:?}", e))?;
    if !feq(&cs.eval(&o), &want) {
        return Err(format!("hash circuit differs from the hash for {}", hp.desc()));
    }
    if let Some(u) = cs.unsatisfied() {
        return Err(format!("honest assignment does not satisfy {} for {}", u, hp.desc()));
    }
    Ok(())
}
/// Narrow hashes over a wide permutation: the rest of the state is the static padding, the same on both
/// sides, and the static commitments have exactly the documented values
fn p17_statics(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::*;
    use bulletproofs_amcl::r1cs::ConstraintSystem;
    let gs = gens(128);
    let want = |n: usize| -> Vec<Fe> { (0..n).map(|i| if i == 1 { fe(101) } else { Fe::zero() }).collect() };
    let pre = s.below(3);
    if s.chance(1, 2) {
        // the values
        let n = 1 + s.below(8);
        let mut w = want(n);
        let wrong = if s.chance(1, 2) { Some(s.below(n)) } else { None };
        if let Some(i) = wrong {
            w[i] = other_than(s, &w[i]);
        }
        c.case(true, format!("{} statics after {} commitments, wrong {:?}", n, pre, wrong));
        let mut comms = vec![];
        let mut tr = Transcript::new(b"st");
        let proof = no_panic(|| -> Result<R1CSProof, String> {
            let mut pr = Prover::new(&gs.g, &gs.h, &mut tr);
            for i in 0..pre {
                comms.push(pr.commit(fe(i as u64 + 5), fe_seed(i as u64)).0);
            }
            let v = bulletproofs_amcl::r1cs::gadgets::poseidon_hash::allocate_statics_for_prover(&mut pr, n);
            if v.len() != n {
                return Err(format!("{} statics instead of {}", v.len(), n));
            }
            for (x, k) in v.into_iter().zip(w.iter()) {
                pr.constrain(x - k.clone());
            }
            pr.prove(&gs.gv, &gs.hv).map_err(|e| format!("{:?}", e))
        })??;
        let mut tr = Transcript::new(b"st");
        let r = no_panic(|| {
            let mut v = Verifier::new(&mut tr);
            for p in comms.iter() {
                v.commit(p.clone());
            }
            let x = bulletproofs_amcl::r1cs::gadgets::poseidon_hash::allocate_statics_for_verifier(&mut v, n, &gs.g, &gs.h);
            for (x, k) in x.into_iter().zip(w.iter()) {
                v.constrain(x - k.clone());
            }
            v.verify(&proof, &gs.g, &gs.h, &gs.gv, &gs.hv)
        })?;
        if r.is_ok() != wrong.is_none() {
            return Err(format!("{} statics, wrong {:?}: {:?}", n, wrong, r));
        }
        return Ok(());
    }
    let (k, w) = *s.pick(&[(2usize, 5usize), (2, 9), (4, 9), (2, 3), (4, 5)]);
    let hp = gen_hp(s, w, 60, true);
    let ins: Vec<Fe> = (0..k).map(|_| s.fe()).collect();
    let st = want(w - k);
    let mut state = vec![st[0].clone()];
    state.extend(ins.iter().cloned());
    state.extend(st[1..].iter().cloned());
    let (res, z) = hp.permute(&state);
    if z {
        return Ok(());
    }
    let wrong = s.chance(1, 2);
    let out = if wrong { other_than(s, &res[1]) } else { res[1].clone() };
    c.case(true, format!("{}:1 over {} wrong={}", k, hp.desc(), wrong));
    let mut comms = vec![];
    let mut tr = Transcript::new(b"st");
    let proof = no_panic(|| -> Result<R1CSProof, R1CSError> {
        let mut pr = Prover::new(&gs.g, &gs.h, &mut tr);
        let mut v = vec![];
        for x in ins.iter() {
            let (p, var) = pr.commit(x.clone(), fe_seed(3));
            comms.push(p);
            v.push(var);
        }
        let z = bulletproofs_amcl::r1cs::gadgets::poseidon_hash::allocate_statics_for_prover(&mut pr, w - k);
        match k {
            2 => Poseidon_hash_2_gadget(&mut pr, v[0], v[1], z, &hp.params, &hp.sb.lib(), &out)?,
            _ => Poseidon_hash_4_gadget(&mut pr, v, z, &hp.params, &hp.sb.lib(), &out)?,
        }
        pr.prove(&gs.gv, &gs.hv)
    })?
    .map_err(|e| format!("{:?}", e))?;
    let mut tr = Transcript::new(b"st");
    let r = no_panic(|| -> Result<(), R1CSError> {
        let mut vf = Verifier::new(&mut tr);
        let v: Vec<_> = comms.iter().map(|p| vf.commit(p.clone())).collect();
        let z = bulletproofs_amcl::r1cs::gadgets::poseidon_hash::allocate_statics_for_verifier(&mut vf, w - k, &gs.g, &gs.h);
        match k {
            2 => Poseidon_hash_2_gadget(&mut vf, v[0], v[1], z, &hp.params, &hp.sb.lib(), &out)?,
            _ => Poseidon_hash_4_gadget(&mut vf, v, z, &hp.params, &hp.sb.lib(), &out)?,
        }
        vf.verify(&proof, &gs.g, &gs.h, &gs.gv, &gs.hv)
    })?;
    if r.is_ok() == wrong {
        return Err(format!("{}:1 hash over {} with {} output: {:?}", k, hp.desc(), if wrong { "a wrong" } else { "the right" }, r));
    }
    Ok(())
}
/// The permutation gadget constrains every output
fn p17_perm(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::*;
    use bulletproofs_amcl::r1cs::linear_combination::AllocatedQuantity;
    let w = *s.pick(&[3usize, 5, 9]);
    let hp = gen_hp(s, w, 60, true);
    let ins: Vec<Fe> = (0..w).map(|_| s.fe()).collect();
    let (mut out, z) = hp.permute(&ins);
    if z {
        return Ok(());
    }
    let wrong = if s.chance(1, 2) { Some(s.below(w)) } else { None };
    if let Some(i) = wrong {
        out[i] = other_than(s, &out[i]);
    }
    c.case(true, format!("permutation gadget {} wrong output {:?}", hp.desc(), wrong));
    let gs = gens(64);
    let mut tr = Transcript::new(b"perm");
    let mut comms = vec![];
    let proof = no_panic(|| -> Result<R1CSProof, R1CSError> {
        let mut pr = Prover::new(&gs.g, &gs.h, &mut tr);
        let mut q = vec![];
        for x in ins.iter() {
            let (p, v) = pr.commit(x.clone(), fe_seed(7));
            comms.push(p);
            q.push(AllocatedQuantity { variable: v, assignment: Some(x.clone()) });
        }
        Poseidon_permutation_gadget(&mut pr, q, &hp.params, &hp.sb.lib(), &out)?;
        pr.prove(&gs.gv, &gs.hv)
    })?
    .map_err(|e| format!("{:?}", e))?;
    let mut tr = Transcript::new(b"perm");
    let r = no_panic(|| -> Result<(), R1CSError> {
        let mut v = Verifier::new(&mut tr);
        let q = comms
            .iter()
            .map(|p| AllocatedQuantity { variable: v.commit(p.clone()), assignment: None })
            .collect();
        Poseidon_permutation_gadget(&mut v, q, &hp.params, &hp.sb.lib(), &out)?;
        v.verify(&proof, &gs.g, &gs.h, &gs.gv, &gs.hv)
    })?;
    if r.is_ok() != wrong.is_none() {
        return Err(format!("permutation gadget with wrong output {:?}: {:?}", wrong, r));
    }
    Ok(())
}

pub fn p17() -> Prop {
    Prop {
        id: "P17",
        rule: "Random inputs, widths 3, 5 and 9, S-boxes and round splits (full rounds 0 to 2 on each side, any number \
               of partial rounds; full-size instances in the evaluation check). Circuits are evaluated and compared \
               with the reference hash, preimage proofs are made and verified, and for wrong outputs (and zero \
               inputs to the inverse S-box) the library's prover, the natural assignment and a search for another \
               output the verifier's constraints admit. Static commitments and narrow hashes over wide permutations \
               likewise. Non-trivial: every case.",
        subs: vec![
            Sub { name: "evaluate", f: p17_eval, quick: 300, thorough: 6000, len: 60, fixed: vec![] },
            Sub { name: "true", f: p17_true, quick: 100, thorough: 3000, len: 60, fixed: vec![] },
            Sub { name: "false", f: p17_false, quick: 350, thorough: 8000, len: 60, fixed: vec![] },
            Sub { name: "statics", f: p17_statics, quick: 80, thorough: 2000, len: 60, fixed: vec![] },
            Sub { name: "permutation", f: p17_perm, quick: 60, thorough: 1500, len: 60, fixed: vec![] },
        ],
    }
}

fn merkle4(s: &mut Src, t: bool) -> St {
    gen_merkle(s, t, 4, 250)
}
fn merkle8(s: &mut Src, t: bool) -> St {
    gen_merkle(s, t, 8, 250)
}
fn merkle4s(s: &mut Src, t: bool) -> St {
    gen_merkle(s, t, 4, 120)
}
fn merkle8s(s: &mut Src, t: bool) -> St {
    gen_merkle(s, t, 8, 120)
}
/// Deep trees with a one-round hash
fn gen_merkle_deep(s: &mut Src, truth: bool, lo: usize, hi4: usize, hi8: usize) -> St {
    let ary = *s.pick(&[4usize, 8]);
    let depth = lo + s.below((if ary == 4 { hi4 } else { hi8 }) - lo + 1);
    let hp = Rc::new(Hp::new(ary + 1, 0, 0, 1, *s.pick(&[Sb::Cube, Sb::Quint, Sb::Inv])));
    let m = s.below(5);
    let dg: Vec<usize> = (0..depth)
        .map(|l| match m {
            0 => ary - 1,
            1 => {
                // one digit only
                if l == depth / 2 {
                    1 + s.below(ary - 1)
                } else {
                    0
                }
            }
            _ => s.below(ary),
        })
        .collect();
    let mut idx = index_of(&dg, ary);
    let mut leaf = s.fe();
    let nseed = s.u();
    let mut nodes: Vec<Vec<Fe>> =
        (0..depth).map(|l| (0..ary - 1).map(|j| fe_seed(nseed ^ (l * 16 + j) as u64)).collect()).collect();
    let root = path_root(&hp, &leaf, &idx, &nodes, depth).0.unwrap();
    if truth {
        return St::Merkle { leaf, idx, nodes, root, depth, hp };
    }
    let k = ary.trailing_zeros() as usize;
    match s.below(6) {
        0 => leaf = other_than(s, &leaf),
        1 | 2 => {
            let l = s.below(depth);
            let mut d2 = dg.clone();
            d2[l] = (d2[l] + 1 + s.below(ary - 1)) % ary;
            idx = index_of(&d2, ary);
        }
        3 => idx = &idx + &pow2((depth * k + s.below(8)).min(254)),
        4 => {
            // index beyond the tree, in any of the higher bits
            let b = depth * k;
            idx = &idx + &pow2(b + s.below(255 - b));
        }
        _ => {
            let (l, j) = (s.below(depth), s.below(ary - 1));
            nodes[l][j] = other_than(s, &nodes[l][j]);
        }
    }
    St::Merkle { leaf, idx, nodes, root, depth, hp }
}
fn p19_deep_true(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_true(s, c, |s, t| gen_merkle_deep(s, t, 8, 40, 20))
}
fn p19_deep_false(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    // rarely as deep as the index allows
    let st = if s.chance(1, 4) { gen_merkle_deep(s, false, 30, 120, 80) } else { gen_merkle_deep(s, false, 8, 36, 18) };
    if st.truth() {
        c.case(false, st.desc());
        return Ok(());
    }
    c.case(true, st.desc());
    c.class(st.kind());
    let rel = related(&st);
    sound(s, &st, rel.as_ref(), c, 12).map_err(|e| format!("{} [{}]", e, st.desc()))
}
fn p19_deep_eval(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let st = gen_merkle_deep(s, true, 8, 120, 80);
    if !st.truth() {
        return Ok(());
    }
    c.case(true, st.desc());
    eval_merkle(&st)
}
fn p19_true4(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_true(s, c, merkle4s)
}
fn p19_true8(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_true(s, c, merkle8s)
}
fn p19_false4(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_false(s, c, merkle4)
}
fn p19_false8(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    run_false(s, c, merkle8)
}
/// The honest assignment satisfies the circuit for every index and depth (no proof: many cases)
fn p19_eval(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let ary = *s.pick(&[4usize, 8]);
    let lim = if s.chance(1, 4) { 1200 } else { 250 };
    let st = gen_merkle(s, true, ary, lim);
    if !st.truth() {
        return Ok(());
    }
    c.case(true, st.desc());
    eval_merkle(&st)
}
fn eval_merkle(st: &St) -> Result<(), String> {
    let gs = gens(64);
    let vals = st.natural_values(0);
    let bl = vec![Fe::zero(); vals.len()];
    let mut cs = RefCS::new(Transcript::new(b"x"), true);
    no_panic(|| st.natural(&mut cs, gs, &vals, &bl))?.map_err(|e| format!("{:?}", e))?;
    if let Some(u) = cs.unsatisfied() {
        return Err(format!("honest assignment does not satisfy {} [{}]", u, st.desc()));
    }
    // the circuit determines its result: another root is not satisfied
    let r = st.result().unwrap();
    let bad = st.with_result(&(&r + &Fe::one())).unwrap();
    let mut cs = RefCS::new(Transcript::new(b"x"), true);
    no_panic(|| bad.natural(&mut cs, gs, &vals, &bl))?.map_err(|e| format!("{:?}", e))?;
    if cs.unsatisfied().is_none() {
        return Err(format!("another root satisfies the circuit [{}]", bad.desc()));
    }
    Ok(())
}
/// Wrong numbers of path nodes are refused
fn p19_lengths(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let ary = *s.pick(&[4usize, 8]);
    let st = gen_merkle(s, true, ary, 120);
    if !st.truth() {
        return Ok(());
    }
    let mut o = st.clone();
    let d2;
    if let St::Merkle { nodes, depth, .. } = &mut o {
        match s.below(3) {
            0 if *depth > 0 => {
                nodes.pop();
            }
            1 => nodes.push((0..ary - 1).map(|_| s.fe()).collect()),
            _ => nodes.extend((0..3).map(|_| (0..ary - 1).map(|_| s.fe()).collect::<Vec<_>>())),
        }
        d2 = nodes.len();
        c.case(true, format!("{} nodes for depth {}", nodes.len(), depth));
        if d2 == *depth {
            return Ok(());
        }
    } else {
        return Ok(());
    }
    let gs = gens(1024);
    let mut rng = std_rng(1);
    if no_panic(|| o.gen(None, Some(&mut rng), b"l", &gs.g, &gs.h, &gs.gv, &gs.hv))?.is_ok() {
        return Err(format!("prover took a path of {} levels: {}", d2, st.desc()));
    }
    // verifier: a valid proof put to another depth, also with commitments cut or repeated to fit
    let (proof, comms, label) = complete(s, &st, c)?;
    let mut v = st.clone();
    let mut dd = 0;
    if let St::Merkle { depth, .. } = &mut v {
        *depth = if s.chance(1, 2) { *depth + 1 } else { depth.saturating_sub(1) };
        dd = *depth;
    }
    if let St::Merkle { depth, .. } = &st {
        if dd == *depth {
            return Ok(());
        }
    }
    let mut cm = comms.clone();
    if s.chance(1, 2) {
        while cm.len() > v.num_comms() {
            cm.pop();
        }
        while cm.len() < v.num_comms() {
            cm.push(comms[comms.len() - 1].clone());
        }
    }
    match no_panic(|| v.check(proof, cm, label, &gs.g, &gs.h, &gs.gv, &gs.hv))? {
        Ok(()) => Err(format!("accepted for depth {}: {}", dd, st.desc())),
        Err(_) => Ok(()),
    }
}

pub fn p19() -> Prop {
    Prop {
        id: "P19",
        rule: "Random paths of 4-ary and 8-ary trees (random and special sibling nodes, every digit at every level, \
               depth 0 to 40, evaluated to 120; all S-boxes and small round splits). True inclusions are proved and verified; false \
               ones (other leaf, index, node, root, index out of range or aliasing) go to the library's prover, the \
               natural assignment and a search over the verifier's constraints with all committed values fixed and \
               the root free. Paths and depths of the wrong length must be refused. Non-trivial: every case.",
        subs: vec![
            Sub { name: "evaluate", f: p19_eval, quick: 400, thorough: 8000, len: 80, fixed: vec![] },
            Sub { name: "true4", f: p19_true4, quick: 70, thorough: 2000, len: 80, fixed: vec![] },
            Sub { name: "true8", f: p19_true8, quick: 70, thorough: 2000, len: 80, fixed: vec![] },
            Sub { name: "false4", f: p19_false4, quick: 200, thorough: 5000, len: 80, fixed: vec![] },
            Sub { name: "false8", f: p19_false8, quick: 160, thorough: 5000, len: 80, fixed: vec![] },
            Sub { name: "deep_true", f: p19_deep_true, quick: 10, thorough: 300, len: 160, fixed: vec![] },
            Sub { name: "deep_false", f: p19_deep_false, quick: 50, thorough: 800, len: 160, fixed: vec![] },
            Sub { name: "deep_evaluate", f: p19_deep_eval, quick: 60, thorough: 1500, len: 160, fixed: vec![] },
            Sub { name: "lengths", f: p19_lengths, quick: 60, thorough: 1500, len: 80, fixed: vec![] },
        ],
    }
}

pub fn _u(_: &G1Vector) {}
