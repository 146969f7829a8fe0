//! P21 (composition), P22 (generator lengths of the one-call functions), P23 (gadget interface),
//! P05 (blindings of the commitments gadgets make)

use crate::core::prefix;
use crate::core2::{check_fresh, small_multiple};
use crate::fw::*;
use crate::gadgets::*;
use crate::gprops::*;
use crate::refcs::*;
use crate::src::{fe, fe_seed, mix, Src};
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use amcl_wrapper::group_elem_g1::G1;
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::{ConstraintSystem, LinearCombination, Prover, R1CSProof, Variable, Verifier};
use merlin::Transcript;

/// Any gadget, of moderate size
pub fn any_st(s: &mut Src, truth: bool, small: bool) -> St {
    let m = if small { 1 } else { 2 };
    loop_truth(s, truth, |s, t| match s.below(11) {
        0 => gen_non_zero(s, t),
        1 => gen_bound(s, t, 6 * m),
        2 => gen_set_mem(s, t, 5 * m),
        3 => gen_set_alt(s, t, 4 * m),
        4 => gen_non_mem(s, t, 4 * m),
        5 => gen_hamming(s, t, 4 * m),
        6 => gen_mimc(s, t, 6 * m),
        7 | 8 => gen_pos(s, t, 32 * m),
        9 => gen_merkle(s, t, 4, 40 * m),
        _ => gen_merkle(s, t, 8, 60 * m),
    })
}

fn loop_truth(s: &mut Src, truth: bool, g: impl Fn(&mut Src, bool) -> St) -> St {
    for _ in 0..8 {
        let st = g(s, truth);
        if st.truth() == truth {
            return st;
        }
    }
    if truth {
        St::NonZero { val: Fe::one() }
    } else {
        St::NonZero { val: Fe::zero() }
    }
}

// ---------------------------------------------------------------- P21

/// Parts of a joint system
enum Item {
    Gadget(St),
    /// the caller's own commitment
    Commit(Fe, Fe),
    /// a single variable
    Alloc(Fe),
    Mult(Fe, Fe),
    /// own variable i minus its value (plus an error) is zero
    Pin(usize, Fe),
}

fn gen_items(s: &mut Src, bad: Option<usize>, n: usize) -> Vec<Item> {
    // `bad`: which gadget is false; usize::MAX: one of the caller's constraints is
    let mut r = vec![];
    let mut own: Vec<Fe> = vec![];
    let filler = |s: &mut Src, r: &mut Vec<Item>, own: &mut Vec<Fe>| {
        for _ in 0..s.below(4) {
            match s.below(5) {
                0 => {
                    let v = s.fe();
                    own.push(v.clone());
                    r.push(Item::Commit(v, s.fe_rand()));
                }
                1 | 2 => {
                    let v = s.fe();
                    own.push(v.clone());
                    r.push(Item::Alloc(v));
                }
                3 => {
                    let (a, b) = (s.fe(), s.fe());
                    own.push(&a * &b);
                    r.push(Item::Mult(a, b));
                }
                _ => {
                    if !own.is_empty() {
                        let i = s.below(own.len());
                        r.push(Item::Pin(i, own[i].clone()));
                    }
                }
            }
        }
    };
    for k in 0..n {
        filler(s, &mut r, &mut own);
        let st = any_st(s, bad != Some(k), true);
        r.push(Item::Gadget(st));
    }
    filler(s, &mut r, &mut own);
    if bad == Some(usize::max_value()) {
        if own.is_empty() {
            let v = s.fe();
            own.push(v.clone());
            r.push(Item::Alloc(v));
        }
        let i = s.below(own.len());
        let v = other_than(s, &own[i]);
        let at = r.len();
        r.insert(at, Item::Pin(i, v));
    }
    r
}

fn items_desc(it: &[Item]) -> String {
    it.iter()
        .map(|i| match i {
            Item::Gadget(st) => st.desc(),
            Item::Commit(v, _) => format!("commit {}", &v.to_hex()[..8.min(v.to_hex().len())]),
            Item::Alloc(_) => "allocate".into(),
            Item::Mult(..) => "multiply".into(),
            Item::Pin(i, _) => format!("constrain own {}", i),
        })
        .collect::<Vec<_>>()
        .join("; ")
}

/// The caller's own steps; `values`: is an assignment known
fn own_step<CS: ConstraintSystem>(cs: &mut CS, it: &Item, own: &mut Vec<Variable>, values: bool) -> Result<(), R1CSError> {
    match it {
        Item::Alloc(v) => own.push(cs.allocate(if values { Some(v.clone()) } else { None })?),
        Item::Mult(a, b) => {
            let (_, _, o) = cs.multiply(LinearCombination::from(a.clone()), LinearCombination::from(b.clone()));
            own.push(o);
        }
        Item::Pin(i, v) => cs.constrain(LinearCombination::from(own[*i]) - LinearCombination::from(v.clone())),
        _ => {}
    }
    Ok(())
}

fn items_prove(
    s: &mut Src, it: &[Item], label: &'static [u8], gs: &Gens,
) -> Result<(R1CSProof, Vec<Vec<G1>>), R1CSError> {
    let mut tr = Transcript::new(label);
    let mut pr = Prover::new(&gs.g, &gs.h, &mut tr);
    let mut own = vec![];
    let mut comms = vec![];
    let mut rng = std_rng(s.u());
    for i in it {
        match i {
            Item::Gadget(st) => {
                let nb = st.num_blindings();
                let bl = if s.chance(1, 2) { Some((0..nb).map(|_| s.fe_rand()).collect()) } else { None };
                comms.push(st.prove(&mut pr, bl, Some(&mut rng))?);
            }
            Item::Commit(v, b) => {
                let (p, var) = pr.commit(v.clone(), b.clone());
                own.push(var);
                comms.push(vec![p]);
            }
            _ => own_step(&mut pr, i, &mut own, true)?,
        }
    }
    Ok((pr.prove(&gs.gv, &gs.hv)?, comms))
}

fn items_verify(it: &[Item], proof: &R1CSProof, comms: &[Vec<G1>], label: &'static [u8], gs: &Gens) -> Result<(), R1CSError> {
    let mut tr = Transcript::new(label);
    let mut v = Verifier::new(&mut tr);
    let mut own = vec![];
    let mut k = 0;
    for i in it {
        match i {
            Item::Gadget(st) => {
                st.verify(comms[k].clone(), &gs.g, &gs.h, &mut v)?;
                k += 1;
            }
            Item::Commit(..) => {
                own.push(v.commit(comms[k][0].clone()));
                k += 1;
            }
            _ => own_step(&mut v, i, &mut own, false)?,
        }
    }
    v.verify(proof, &gs.g, &gs.h, &gs.gv, &gs.hv)
}

/// Over the reference constraint system, also with false parts
fn items_natural(
    it: &[Item], label: &'static [u8], gs: &Gens, seed: u64, variant: usize,
) -> Result<(RefCS, Vec<Vec<G1>>), String> {
    let mut cs = RefCS::new(Transcript::new(label), true);
    let mut own = vec![];
    let mut comms = vec![];
    let mut q = seed;
    for i in it {
        match i {
            Item::Gadget(st) => {
                let vals = st.natural_values(variant);
                let bl: Vec<Fe> = (0..vals.len())
                    .map(|_| {
                        q = mix(q);
                        fe_seed(q)
                    })
                    .collect();
                let at = cs.vp.len();
                no_panic(|| st.natural(&mut cs, gs, &vals, &bl))?.map_err(|e| format!("{:?}", e))?;
                let n = st.num_comms();
                // statics follow the caller's commitments, the order of the library is the same
                comms.push(cs.vp[at..at + n].to_vec());
            }
            Item::Commit(v, b) => {
                own.push(cs.commit_value(gs, v, b));
                comms.push(vec![cs.vp[cs.vp.len() - 1].clone()]);
            }
            _ => own_step(&mut cs, i, &mut own, true).map_err(|e| format!("{:?}", e))?,
        }
    }
    Ok((cs, comms))
}

fn items_gens(it: &[Item]) -> &'static Gens {
    let n: usize = it
        .iter()
        .map(|i| match i {
            Item::Gadget(st) => st.gates(),
            Item::Alloc(_) | Item::Mult(..) => 1,
            _ => 0,
        })
        .sum();
    gens(n.max(1).next_power_of_two())
}

fn p21_true(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let n = 1 + s.below(4);
    let it = gen_items(s, None, n);
    c.case(true, items_desc(&it));
    c.class(format!("{} gadgets", n));
    let gs = items_gens(&it);
    let label = label_of(s);
    let (proof, comms) = no_panic(|| items_prove(s, &it, label, gs))?
        .map_err(|e| format!("proving a joint true statement failed: {:?} [{}]", e, items_desc(&it)))?;
    no_panic(|| items_verify(&it, &proof, &comms, label, gs))?
        .map_err(|e| format!("joint proof of true statements rejected: {:?} [{}]", e, items_desc(&it)))
}

fn p21_false(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let n = 1 + s.below(4);
    let bad = if s.chance(1, 6) { usize::max_value() } else { s.below(n) };
    let it = gen_items(s, Some(bad), n);
    c.case(true, format!("false part {}: {}", bad as isize, items_desc(&it)));
    c.class(if bad == usize::max_value() { "own constraint false".into() } else { format!("gadget {} of {} false", bad, n) });
    let gs = items_gens(&it);
    let label = label_of(s);
    let seed = s.u();
    let variant = s.below(4);
    let ok = it.iter().all(|i| if let Item::Gadget(st) = i { st.provable_input() } else { true });
    if ok && s.chance(1, 3) {
        if let Ok(Ok((proof, comms))) = no_panic(|| items_prove(s, &it, label, gs)) {
            c.evals += 1;
            if no_panic(|| items_verify(&it, &proof, &comms, label, gs))?.is_ok() {
                return Err(format!("joint proof with a false part accepted [{}]", items_desc(&it)));
            }
        }
    }
    if let Ok((cs, comms)) = items_natural(&it, label, gs, seed, variant) {
        let sat = cs.unsatisfied().is_none();
        if sat || s.chance(1, 2) {
            let gs2 = gens(cs.n.max(1).next_power_of_two());
            let mut q = seed ^ 5;
            let mut rn = move || {
                q = mix(q);
                fe_seed(q)
            };
            let rp = ref_prove(cs, gs2, &Opts::default(), &mut rn).map_err(|e| format!("{:?}", e))?;
            if no_panic(|| items_verify(&it, &rp.parts.proof(), &comms, label, gs2))?.is_ok() {
                return Err(format!("joint proof with a false part accepted (natural assignment) [{}]", items_desc(&it)));
            }
            c.evals += 1;
        }
    }
    Ok(())
}

/// Constraint systems over the same committed value
fn p21_shared(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    // value in several roles: bounded, in a set, not in a set, non-zero, hash input
    let v = s.int();
    let b = s.fe_rand();
    let val = fe(v);
    let k = 2 + s.below(2);
    let mut sts: Vec<(St, usize)> = vec![];
    for _ in 0..k {
        let st = match s.below(6) {
            0 => {
                let (d, e) = (s.u() % 40, s.u() % 40);
                St::Bound { val: val.clone(), lower: v.saturating_sub(d), upper: v.saturating_add(e), bits: 7 }
            }
            1 => {
                let mut set = gen_fe_set(s, 5);
                let i = s.below(set.len());
                set[i] = val.clone();
                St::SetMem { val: val.clone(), set }
            }
            2 => {
                let mut set: Vec<u64> = (0..3u64).map(|i| v.wrapping_add(1 + i)).collect();
                let i = s.below(3);
                set[i] = v;
                St::SetAlt { val: val.clone(), set }
            }
            3 => {
                let set: Vec<Fe> = gen_fe_set(s, 4).into_iter().filter(|x| !feq(x, &val)).collect();
                St::NonMem { val: val.clone(), set }
            }
            4 if v != 0 => St::NonZero { val: val.clone() },
            _ => {
                let o = s.fe();
                let consts: Vec<Fe> = (0..3).map(|_| s.fe()).collect();
                let image = crate::refhash::ref_mimc(&val, &o, &consts);
                St::Mimc { ins: vec![val.clone(), o], image, consts }
            }
        };
        let pos = if let St::SetAlt { set, .. } = &st { set.len() } else { 0 };
        sts.push((st, pos));
    }
    c.case(true, sts.iter().map(|x| x.0.desc()).collect::<Vec<_>>().join(" & "));
    let same_transcript = s.chance(1, 2);
    let label = label_of(s);
    let gs = gens(64);
    let mut rng = std_rng(s.u());
    // prove
    let mut proofs = vec![];
    let mut tr = Transcript::new(label);
    for (st, _) in sts.iter() {
        if !same_transcript {
            tr = Transcript::new(label);
        }
        let mut bl = vec![b.clone()];
        for _ in 1..st.num_blindings() {
            bl.push(s.fe_rand());
        }
        let r = no_panic(|| {
            let mut pr = Prover::new(&gs.g, &gs.h, &mut tr);
            let comms = st.prove(&mut pr, Some(bl), Some(&mut rng))?;
            Ok::<_, R1CSError>((pr.prove(&gs.gv, &gs.hv)?, comms))
        })?
        .map_err(|e| format!("proving failed: {:?} [{}]", e, st.desc()))?;
        proofs.push(r);
    }
    let com = commit(gs, &val, &b);
    // verify over one commitment, in one of them possibly another value's
    let wrong = if s.chance(1, 3) { Some(s.below(k)) } else { None };
    let skip = if same_transcript && wrong.is_none() && s.chance(1, 3) { Some(s.below(k - 1)) } else { None };
    let mut tr = Transcript::new(label);
    for i in 0..k {
        if !same_transcript {
            tr = Transcript::new(label);
        }
        if skip == Some(i) {
            continue;
        }
        let (st, pos) = &sts[i];
        let mut comms = proofs[i].1.clone();
        if comms[*pos] != com {
            return Err(format!("commitment to the shared value is not the caller's [{}]", st.desc()));
        }
        comms[*pos] = if wrong == Some(i) { commit(gs, &(&val + &Fe::one()), &b) } else { com.clone() };
        let r = no_panic(|| {
            let mut v = Verifier::new(&mut tr);
            st.verify(comms, &gs.g, &gs.h, &mut v)?;
            v.verify(&proofs[i].0, &gs.g, &gs.h, &gs.gv, &gs.hv)
        })?;
        let want = wrong != Some(i) && !(skip.is_some() && i > skip.unwrap());
        c.evals += 1;
        if r.is_ok() != want {
            return Err(format!("system {} of {} (wrong {:?}, skipped {:?}): {:?} [{}]", i, k, wrong, skip, r, st.desc()));
        }
        if !want {
            break;
        }
    }
    Ok(())
}

pub fn p21() -> Prop {
    Prop {
        id: "P21",
        rule: "One to four random gadgets in one constraint system with the caller's commitments, single allocations, gates \
               and constraints between them. All true: proved and verified by the library. One part false (a gadget, or \
               one of the caller's constraints): the library's prover and the reference prover over the natural \
               assignment. Several systems over one commitment and blinding, with separate or shared transcripts, one \
               of them with another commitment or left out. Non-trivial: every case.",
        subs: vec![
            Sub { name: "true", f: p21_true, quick: 120, thorough: 3000, len: 220, fixed: vec![] },
            Sub { name: "false", f: p21_false, quick: 250, thorough: 6000, len: 220, fixed: vec![] },
            Sub { name: "shared", f: p21_shared, quick: 120, thorough: 3000, len: 120, fixed: vec![] },
        ],
    }
}

// ---------------------------------------------------------------- P22

fn p22_gadget(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let st = any_st(s, true, true);
    let label = label_of(s);
    let gs = gens(st.gates().max(1).next_power_of_two() * 2);
    // gate count from the circuit itself
    let vals = st.natural_values(0);
    let mut cs = RefCS::new(Transcript::new(label), true);
    no_panic(|| st.natural(&mut cs, gs, &vals, &vec![Fe::zero(); vals.len()]))?.map_err(|e| format!("{:?}", e))?;
    let n = cs.n.max(1).next_power_of_two();
    let avail = gs.gv.as_slice().len();
    let pick = |s: &mut Src| -> usize {
        match s.below(8) {
            0 => s.below(n),
            1 => n - 1,
            2 | 3 => n,
            4 => n + s.range(1, 7),
            5 => cs.n,
            6 => 2 * n,
            _ => n / 2,
        }
        .min(avail)
    };
    let l: Vec<usize> = (0..4).map(|_| pick(s)).collect();
    c.case(l.iter().any(|x| *x != n), format!("{} needs {}: prover {},{} verifier {},{}", st.desc(), n, l[0], l[1], l[2], l[3]));
    let want_p = l[0] >= n && l[1] >= n;
    let want_v = l[2] >= n && l[3] >= n;
    c.class(format!("{} prover {} verifier {}", st.kind(), want_p, want_v));
    let mut rng = std_rng(s.u());
    let r = no_panic(|| st.gen(None, Some(&mut rng), label, &gs.g, &gs.h, &prefix(&gs.gv, l[0]), &prefix(&gs.hv, l[1])))?;
    let (proof, comms) = match (r, want_p) {
        (Ok(x), true) => x,
        (Err(R1CSError::InvalidGeneratorsLength), false) => {
            no_panic(|| st.gen(None, Some(&mut rng), label, &gs.g, &gs.h, &gs.gv, &gs.hv))?
                .map_err(|e| format!("proving with enough generators: {:?} [{}]", e, st.desc()))?
        }
        (r, _) => return Err(format!("proving with {:?} generators, needed {}: {:?} [{}]", l, n, r.map(|_| ()), st.desc())),
    };
    let r = no_panic(|| st.check(proof, comms, label, &gs.g, &gs.h, &prefix(&gs.gv, l[2]), &prefix(&gs.hv, l[3])))?;
    match (r, want_v) {
        (Ok(()), true) | (Err(R1CSError::InvalidGeneratorsLength), false) => Ok(()),
        (r, _) => Err(format!("verifying with {:?} generators, needed {}: {:?} [{}]", l, n, r, st.desc())),
    }
}

pub fn p22() -> Prop {
    Prop {
        id: "P22",
        rule: "Random circuits and random gadgets through the one-call functions, with the four vector lengths (two of the \
               prover, two of the verifier) drawn around the gate count, its power of two and its half, independently. \
               Non-trivial: some length is not the exact one.",
        subs: {
            let mut v = crate::core::p22_subs();
            v.push(Sub { name: "gadgets", f: p22_gadget, quick: 250, thorough: 6000, len: 120, fixed: vec![] });
            v
        },
    }
}

// ---------------------------------------------------------------- P23

/// Calls the library's prover, step by step or in one call
fn call_prove(
    st: &St, one: bool, bl: Option<Vec<Fe>>, rng: Option<&mut rand::rngs::StdRng>, label: &'static [u8], gs: &Gens,
) -> Result<Result<(Option<R1CSProof>, Vec<G1>), R1CSError>, String> {
    no_panic(|| {
        if one {
            let (p, c) = st.gen(bl, rng, label, &gs.g, &gs.h, &gs.gv, &gs.hv)?;
            Ok((Some(p), c))
        } else {
            let mut tr = Transcript::new(label);
            let mut pr = Prover::new(&gs.g, &gs.h, &mut tr);
            Ok((None, st.prove(&mut pr, bl, rng)?))
        }
    })
}

fn p23_blindings(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let st = any_st(s, true, true);
    let label = label_of(s);
    let gs = gens_for(&st);
    let nb = st.num_blindings();
    let one = s.chance(1, 3);
    let prim = st.primary();
    c.case(nb > 0, st.desc());
    c.class(st.kind());
    let bl: Vec<Fe> = (0..nb).map(|_| s.fe()).collect();
    let seed = s.u();
    if nb > 0 {
        // supplied, with and without a random generator
        let mut rng = std_rng(seed);
        let r = if s.chance(1, 2) { Some(&mut rng) } else { None };
        let (_, comms) = call_prove(&st, one, Some(bl.clone()), r, label, gs)?
            .map_err(|e| format!("blindings supplied: {:?} [{}]", e, st.desc()))?;
        if comms.len() != st.num_comms() {
            return Err(format!("{} commitments instead of {} [{}]", comms.len(), st.num_comms(), st.desc()));
        }
        for (k, (i, v)) in prim.iter().enumerate() {
            if comms[*i] != commit(gs, v, &bl[k]) {
                return Err(format!("commitment {} is not to the caller's value with the caller's blinding [{}]", i, st.desc()));
            }
        }
        // from the generator: reproducible, different for another seed, independent of each other
        let mut run = |sd: u64| -> Result<Vec<G1>, String> {
            let mut rng = std_rng(sd);
            Ok(call_prove(&st, one, None, Some(&mut rng), label, gs)?
                .map_err(|e| format!("generator supplied: {:?} [{}]", e, st.desc()))?
                .1)
        };
        let a = run(seed)?;
        let b = run(seed)?;
        let d = run(seed ^ 1)?;
        let mut blind: Vec<(String, G1)> = vec![];
        for (i, v) in prim.iter() {
            if a[*i] != b[*i] {
                return Err(format!("blinding of commitment {} does not come from the generator [{}]", i, st.desc()));
            }
            let pv = &gs.g * v;
            blind.push((format!("commitment {}", i), &a[*i] - &pv));
            blind.push((format!("commitment {} of another seed", i), &d[*i] - &pv));
        }
        for i in 0..blind.len() {
            if blind[i].1.is_identity() {
                return Err(format!("blinding of {} is zero [{}]", blind[i].0, st.desc()));
            }
            for j in 0..i {
                if blind[i].1 == blind[j].1 {
                    return Err(format!("{} and {} share a blinding [{}]", blind[i].0, blind[j].0, st.desc()));
                }
            }
        }
        // neither
        match call_prove(&st, one, None, None, label, gs)? {
            Err(R1CSError::GadgetError { .. }) => {}
            r => return Err(format!("neither blindings nor generator: {:?} [{}]", r.map(|x| x.1.len()), st.desc())),
        }
    } else {
        let (_, comms) = call_prove(&st, one, None, None, label, gs)?.map_err(|e| format!("{:?} [{}]", e, st.desc()))?;
        if comms.len() != st.num_comms() {
            return Err(format!("{} commitments instead of {} [{}]", comms.len(), st.num_comms(), st.desc()));
        }
    }
    Ok(())
}

/// Wrong numbers of inputs, blindings, path nodes
fn p23_inputs(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let mut st = loop_truth(s, true, |s, t| match s.below(6) {
        0 => gen_hamming(s, t, 6),
        1 => gen_mimc(s, t, 6),
        2 | 3 => gen_pos(s, t, 32),
        4 => gen_merkle(s, t, 4, 40),
        _ => gen_merkle(s, t, 8, 60),
    });
    if let St::NonZero { .. } = st {
        st = gen_hamming(s, true, 3);
    }
    let label = label_of(s);
    let gs = gens_for(&st);
    let one = s.chance(1, 2);
    let nb = st.num_blindings();
    let mut bl: Vec<Fe> = (0..nb).map(|_| s.fe_rand()).collect();
    let other_len = |s: &mut Src, n: usize| -> usize {
        let k = match s.below(4) {
            0 => n + 1,
            1 => n.wrapping_sub(1),
            2 => 0,
            _ => s.below(n + 4),
        };
        if k == n || k > n + 8 {
            n + 2
        } else {
            k
        }
    };
    let mut rng_only = false;
    let what;
    if nb > 0 && s.chance(1, 2) {
        let k = other_len(s, nb);
        bl.resize(k, fe(9));
        what = format!("{} blindings", k);
    } else {
        rng_only = s.chance(1, 2);
        match &mut st {
            St::Hamming { orig, new, .. } => {
                let k = other_len(s, orig.len());
                if s.chance(1, 2) {
                    orig.resize(k, fe(3));
                } else {
                    new.resize(k, fe(3));
                }
                what = format!("{} original and {} new values", orig.len(), new.len());
            }
            St::Mimc { ins, .. } | St::Pos { ins, .. } => {
                let k = other_len(s, ins.len());
                ins.resize(k, fe(3));
                what = format!("{} inputs", k);
                if s.chance(1, 2) {
                    bl.resize(k, fe(9));
                }
            }
            St::Merkle { nodes, depth, hp, .. } => {
                let k = other_len(s, *depth);
                if s.chance(1, 2) {
                    let w = hp.w - 2;
                    nodes.resize(k, vec![fe(1); w]);
                } else {
                    *depth = k;
                }
                what = format!("{} levels of path for depth {}", nodes.len(), depth);
            }
            _ => unreachable!(),
        }
    }
    c.case(true, format!("{} [{}]", what, st.kind()));
    c.class(st.kind());
    let mut rng = std_rng(s.u());
    let rg = if rng_only || s.chance(1, 2) { Some(&mut rng) } else { None };
    let bl = if rng_only || nb == 0 { None } else { Some(bl) };
    match call_prove(&st, one, bl, rg, label, gs) {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(_)) => Err(format!("proving with {} is not refused [{}]", what, st.kind())),
        Err(p) => Err(format!("proving with {}: {} [{}]", what, p, st.kind())),
    }
}

/// Wrong numbers of commitments
fn p23_commitments(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let st = any_st(s, true, true);
    let label = label_of(s);
    let gs = gens_for(&st);
    let mut rng = std_rng(s.u());
    let (proof, comms) = no_panic(|| st.gen(Some((0..st.num_blindings()).map(|_| s.fe_rand()).collect()), Some(&mut rng), label, &gs.g, &gs.h, &gs.gv, &gs.hv))?
        .map_err(|e| format!("{:?} [{}]", e, st.desc()))?;
    let n = comms.len();
    let mut c2 = comms.clone();
    let what = match s.below(5) {
        0 => {
            c2.pop();
            "without the last"
        }
        1 => {
            if n > 0 {
                c2.remove(s.below(n));
            }
            "without one"
        }
        2 => {
            c2.push(gs.g.clone());
            "with one more"
        }
        3 => {
            c2.clear();
            "without any"
        }
        _ => {
            let k = 1 + s.below(4);
            for _ in 0..k {
                c2.push(if n > 0 { comms[s.below(n)].clone() } else { gs.h.clone() });
            }
            "with more"
        }
    };
    if c2.len() == n {
        return Ok(());
    }
    c.case(true, format!("{} commitments, {} [{}]", c2.len(), what, st.desc()));
    c.class(format!("{} {}", st.kind(), what));
    match no_panic(|| st.check(proof.clone(), c2.clone(), label, &gs.g, &gs.h, &gs.gv, &gs.hv)) {
        Ok(Err(_)) => {}
        Ok(Ok(())) => return Err(format!("accepted {} commitments ({}) [{}]", c2.len(), what, st.desc())),
        Err(p) => return Err(format!("{} for {} commitments ({}) [{}]", p, c2.len(), what, st.desc())),
    }
    // the step-by-step function refuses on its own
    match no_panic(|| {
        let mut tr = Transcript::new(label);
        let mut v = Verifier::new(&mut tr);
        st.verify(c2.clone(), &gs.g, &gs.h, &mut v)
    }) {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(())) => Err(format!("{} commitments ({}) are not refused before verification [{}]", c2.len(), what, st.desc())),
        Err(p) => Err(format!("{} for {} commitments ({}) [{}]", p, c2.len(), what, st.desc())),
    }
}

pub fn p23() -> Prop {
    Prop {
        id: "P23",
        rule: "Random gadgets and inputs: supplied blindings give exactly the Pedersen commitments in the documented \
               positions, with and without a generator; a seeded generator alone makes them reproducible and distinct; \
               neither is an error; wrong numbers of inputs, blindings, path levels and commitments are errors, step \
               by step and in one call. Non-trivial: the gadget takes blindings, or the number is wrong.",
        subs: vec![
            Sub { name: "blindings", f: p23_blindings, quick: 400, thorough: 8000, len: 120, fixed: vec![] },
            Sub { name: "inputs", f: p23_inputs, quick: 600, thorough: 10000, len: 120, fixed: vec![] },
            Sub { name: "commitments", f: p23_commitments, quick: 250, thorough: 5000, len: 120, fixed: vec![] },
        ],
    }
}

// ---------------------------------------------------------------- P05

/// Commitments a gadget makes on the caller's behalf, shown as multiples of h
fn p05_gadgets(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let st = any_st(s, true, true);
    let prim: Vec<usize> = st.primary().iter().map(|x| x.0).collect();
    let hidden = if let St::Hamming { .. } = st { true } else { false };
    c.case(st.num_comms() > prim.len() || hidden, st.desc());
    c.class(st.kind());
    let h = G1::generator();
    let g = G1::identity();
    let nb = st.num_blindings();
    let bl: Vec<Fe> = (0..nb).map(|_| s.fe_rand()).collect();
    let seed = s.u();
    let mut all: Vec<(String, G1)> = vec![];
    let runs = 2;
    for run in 0..runs {
        let mut tr = Transcript::new(b"p05");
        // the same generator state: auxiliary blindings may not be a function of the caller's
        let mut rng = std_rng(seed);
        let supplied = nb > 0 && s.chance(1, 2);
        let comms = no_panic(|| {
            let mut pr = Prover::new(&g, &h, &mut tr);
            st.prove(&mut pr, if supplied { Some(bl.clone()) } else { None }, Some(&mut rng))
        })?
        .map_err(|e| format!("{:?} [{}]", e, st.desc()))?;
        for (i, p) in comms.iter().enumerate() {
            let own = prim.contains(&i) && !hidden;
            if own && (supplied || run > 0) {
                continue;
            }
            all.push((format!("{} {} of run {}", if own { "the caller's commitment" } else { "auxiliary commitment" }, i, run), p.clone()));
        }
    }
    // keep the pairwise comparison affordable
    if all.len() > 40 {
        let k = s.below(all.len() - 39);
        for (n, p) in all.iter() {
            if let Some(k) = small_multiple(p) {
                return Err(format!("blinding of {} is {} [{}]", n, k, st.desc()));
            }
        }
        let mut enc = std::collections::HashMap::new();
        for (n, p) in all.iter() {
            if let Some(o) = enc.insert(p.to_bytes(), n.clone()) {
                return Err(format!("{} and {} share a blinding [{}]", n, o, st.desc()));
            }
        }
        all = all[k..k + 40].to_vec();
    }
    check_fresh(&all).map_err(|e| format!("{} [{}]", e, st.desc()))
}

pub fn p05() -> Prop {
    let mut subs = crate::core2::p05_subs();
    subs.push(Sub { name: "gadgets", f: p05_gadgets, quick: 250, thorough: 6000, len: 120, fixed: vec![] });
    Prop {
        id: "P05",
        rule: "Random two-phase circuits proved over probe generators (h the base point, all others the identity; single \
               positions of the generator vectors), so that each commitment shows one blinding; none is zero or a small \
               multiple (2^20 in 'range'), no two in a proof or across two proofs are equal or in a small linear \
               relation, every position of the blinding vectors in both phases is masked, and two proofs of one \
               witness share no component. Commitments that gadgets make on the caller's behalf likewise, over two runs \
               with the same caller randomness. Non-trivial: at least one gate or auxiliary commitment.",
        subs,
    }
}
