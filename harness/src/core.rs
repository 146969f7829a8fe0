//! P01-P04, P06, P08, P22, P24: the proof system on random constraint systems.

use crate::fw::*;
use crate::prog::{self, gen, gen_wide, ref_cs, run, same_opt, shared, Limits, Prog, Shared};
use crate::refcs::*;
use crate::src::{fe, fe_seed, mix, Src};
use amcl_wrapper::field_elem::FieldElement;
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::{
    ConstraintSystem, LinearCombination, Prover, R1CSProof, RandomizedConstraintSystem, Variable,
    Verifier,
};
use merlin::Transcript;

pub struct Made {
    pub proof: R1CSProof,
    pub comms: Vec<G1>,
    pub end: [u8; 32],
    pub sh: Shared,
    pub n_mult: usize,
    pub n_cons: usize,
}

pub type Shift<'a> = &'a [(usize, Fe)];

pub fn prefix(v: &G1Vector, n: usize) -> G1Vector {
    v.as_slice()[..n.min(v.len())].to_vec().into()
}

pub fn real_prove(
    p: &Prog,
    shift: Shift,
    g: &G1,
    h: &G1,
    gv: &G1Vector,
    hv: &G1Vector,
) -> Result<Made, R1CSError> {
    let mut tr = p.transcript();
    let sh = shared(shift);
    let mut comms = vec![];
    let (proof, n_mult, n_cons) = {
        let mut prover = Prover::new(g, h, &mut tr);
        run(&mut prover, p, &sh, &mut |c: &mut Prover<'_, '_>, _, v, b| {
            let (pt, var) = c.commit(v.clone(), b.clone());
            comms.push(pt);
            var
        })?;
        let (a, b) = (prover.num_multipliers(), prover.num_constraints());
        (prover.prove(gv, hv)?, a, b)
    };
    Ok(Made {
        proof,
        comms,
        end: state(&tr),
        sh,
        n_mult,
        n_cons,
    })
}

pub fn real_verify_tr(
    mut tr: Transcript,
    p: &Prog,
    shift: Shift,
    comms: &[G1],
    proof: &R1CSProof,
    g: &G1,
    h: &G1,
    gv: &G1Vector,
    hv: &G1Vector,
) -> (Result<(), R1CSError>, [u8; 32], Shared) {
    let sh = shared(shift);
    let r = {
        let mut ver = Verifier::new(&mut tr);
        let r = run(&mut ver, p, &sh, &mut |c: &mut Verifier<'_>, k, _, _| {
            c.commit(comms[k].clone())
        });
        match r {
            Ok(()) => ver.verify(proof, g, h, gv, hv),
            Err(e) => Err(e),
        }
    };
    (r, state(&tr), sh)
}

pub fn real_verify(
    p: &Prog,
    shift: Shift,
    comms: &[G1],
    proof: &R1CSProof,
    g: &G1,
    h: &G1,
    gv: &G1Vector,
    hv: &G1Vector,
) -> (Result<(), R1CSError>, [u8; 32], Shared) {
    real_verify_tr(p.transcript(), p, shift, comms, proof, g, h, gv, hv)
}

/// Reference verifier built from the program over given commitments
pub fn ref_ver_cs(p: &Prog, shift: Shift, comms: &[G1]) -> (RefCS, Shared) {
    let sh = shared(shift);
    let mut cs = RefCS::new(p.transcript(), false);
    run(&mut cs, p, &sh, &mut |c: &mut RefCS, k, _, _| c.commit_point(comms[k].clone()))
        .expect("reference verifier run");
    (cs, sh)
}

pub fn rng_of(s: &mut Src) -> impl FnMut() -> Fe {
    let mut k = s.u();
    move || {
        k = mix(k ^ 0x1234567);
        fe_seed(k)
    }
}

const SMALL: Limits = Limits {
    ops: 12,
    blocks: 2,
    block_ops: 6,
    none_ops: false,
};
const TINY: Limits = Limits {
    ops: 6,
    blocks: 2,
    block_ops: 4,
    none_ops: false,
};
const MID: Limits = Limits {
    ops: 40,
    blocks: 3,
    block_ops: 12,
    none_ops: false,
};
const LARGE: Limits = Limits {
    ops: 150,
    blocks: 3,
    block_ops: 30,
    none_ops: false,
};

fn size_class(p: &Prog) -> String {
    format!("padded={}{}", p.padded(), if p.n2 > 0 { " two-phase" } else { "" })
}

fn gens_for(s: &mut Src, n: usize) -> (G1, G1, G1Vector, G1Vector) {
    if n <= 64 && s.chance(1, 2) {
        let (g, h, a, b) = hash_gens();
        (g.clone(), h.clone(), a.clone(), b.clone())
    } else {
        let gs = gens(n);
        (gs.g.clone(), gs.h.clone(), gs.gv.clone(), gs.hv.clone())
    }
}

fn surplus(s: &mut Src, n: usize, max: usize) -> usize {
    match s.below(4) {
        0 | 1 => n,
        2 => (n + s.range(1, 5)).min(max),
        _ => s.range(n, max),
    }
}

// ---------------------------------------------------------------- P01

fn complete(p: &Prog, s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let n = p.padded();
    c.case(p.gates() > 0 && p.explicit > 0, p.desc());
    c.class(size_class(p));
    let (g, h, gv, hv) = gens_for(s, n);
    let lens: Vec<usize> = (0..4).map(|_| surplus(s, n, gv.len())).collect();
    let (gp, hp) = (prefix(&gv, lens[0]), prefix(&hv, lens[1]));
    let (gq, hq) = (prefix(&gv, lens[2]), prefix(&hv, lens[3]));
    let m = no_panic(|| real_prove(p, &[], &g, &h, &gp, &hp))?
        .map_err(|e| format!("proving a satisfied system failed: {:?}", e))?;
    if m.comms.len() != p.commits {
        return Err("number of commitments".into());
    }
    let ver = |proof: &R1CSProof, what: &str| -> Result<(), String> {
        no_panic(|| real_verify(p, &[], &m.comms, proof, &g, &h, &gq, &hq).0)?
            .map_err(|e| format!("{} proof of a satisfied system rejected: {:?}", what, e))
    };
    ver(&m.proof, "fresh")?;
    let text = serde_json::to_string(&m.proof).map_err(|e| e.to_string())?;
    let back: R1CSProof = serde_json::from_str(&text).map_err(|e| format!("deserialise: {}", e))?;
    ver(&back, "deserialised")
}

/// The same point in another representation, as it comes out of other computations or off the wire
pub fn another_rep(s: &mut Src, p: &G1) -> G1 {
    match s.below(6) {
        0 => p.clone(),
        1 => G1::from_bytes(&p.to_bytes()).expect("encoding of a point"),
        2 => {
            let q = pt(&s.fe_rand());
            &(p + &q) - &q
        }
        3 => p.negation().negation(),
        4 => {
            let j = serde_json::to_value(p).expect("json");
            serde_json::from_value(j).expect("json")
        }
        _ => {
            if p.is_identity() {
                G1::identity()
            } else {
                &(p + p) - p
            }
        }
    }
}

/// A verifier that holds equal commitments, generators and proof points in other representations
fn p01_reps(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &TINY);
    c.case(p.commits > 0 || p.gates() > 0, p.desc());
    let n = p.padded();
    let gs = gens(n);
    let m = no_panic(|| real_prove(&p, &[], &gs.g, &gs.h, &gs.gv, &gs.hv))?
        .map_err(|e| format!("proving a satisfied system failed: {:?}", e))?;
    if m.comms.iter().any(|x| x.is_identity()) {
        c.class("identity commitment");
    }
    let parts = Parts::of(&m.proof);
    if parts.pts.iter().chain(parts.l.iter()).chain(parts.r.iter()).any(|x| x.is_identity()) {
        c.class("identity in proof");
    }
    for _ in 0..3 {
        c.evals += 1;
        let comms: Vec<G1> = m.comms.iter().map(|x| another_rep(s, x)).collect();
        let (g, h) = (another_rep(s, &gs.g), another_rep(s, &gs.h));
        let gv: Vec<G1> = gs.gv.as_slice()[..n].iter().map(|x| another_rep(s, x)).collect();
        let mut q = parts.clone();
        q.pts = q.pts.iter().map(|x| another_rep(s, x)).collect();
        q.l = q.l.iter().map(|x| another_rep(s, x)).collect();
        q.r = q.r.iter().map(|x| another_rep(s, x)).collect();
        let proof = if s.chance(1, 2) { q.proof() } else { m.proof.clone() };
        no_panic(|| real_verify(&p, &[], &comms, &proof, &g, &h, &gv.clone().into(), &gs.hv).0)?
            .map_err(|e| format!("verifier with other representations of the same points rejects: {:?}", e))?;
    }
    Ok(())
}

/// Long chains of gates, beyond the sizes of the random programs
fn p01_huge(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let n = *s.pick(&[257usize, 300, 513, 700, 1025, 1500]);
    let two = s.chance(1, 2);
    let v = s.fe_rand();
    let gs = gens(n.next_power_of_two());
    let sh = shared(&[]);
    let _ = &sh;
    c.case(true, format!("{} gates two-phase={} v={}", n, two, v.to_hex()));
    c.class(format!("gates={}", n));
    fn chain<CS: ConstraintSystem>(cs: &mut CS, v: Variable, k: usize, out: Option<Fe>) {
        let (_, _, mut o) = cs.multiply(v.into(), v + Fe::one());
        for i in 1..k {
            let (_, _, o2) = cs.multiply(o + Fe::one(), v + fe(i as u64));
            o = o2;
        }
        if let Some(x) = out {
            cs.constrain(o - LinearCombination::from(x));
        }
    }
    let val = |v: &Fe, k: usize| -> Fe {
        let mut o = v * &(v + &Fe::one());
        for i in 1..k {
            o = &(&o + &Fe::one()) * &(v + &fe(i as u64));
        }
        o
    };
    let (k1, k2) = if two { (n / 2, n - n / 2) } else { (n, 0) };
    let (x1, x2) = (val(&v, k1), val(&v, k2.max(1)));
    let bad = s.chance(1, 3);
    let x1 = if bad && k2 == 0 { &x1 + &Fe::one() } else { x1 };
    let x2 = if bad { &x2 + &Fe::one() } else { x2 };
    macro_rules! build {
        ($cs:expr, $var:expr) => {{
            let var = $var;
            chain(&mut $cs, var, k1, Some(x1.clone()));
            if k2 > 0 {
                let x2 = x2.clone();
                $cs.specify_randomized_constraints(move |cs| {
                    let _ = cs.challenge_scalar(b"c");
                    chain(cs, var, k2, Some(x2.clone()));
                    Ok(())
                })
                .map_err(|e| format!("{:?}", e))?;
            }
        }};
    }
    let (proof, com) = {
        let mut tr = Transcript::new(b"huge");
        let mut prover = Prover::new(&gs.g, &gs.h, &mut tr);
        let (com, var) = prover.commit(v.clone(), s.fe_rand());
        build!(prover, var);
        let proof = no_panic(|| prover.prove(&gs.gv, &gs.hv))?.map_err(|e| format!("proving {} gates: {:?}", n, e))?;
        (proof, com)
    };
    let mut tr = Transcript::new(b"huge");
    let mut ver = Verifier::new(&mut tr);
    let var = ver.commit(com);
    build!(ver, var);
    let r = no_panic(|| ver.verify(&proof, &gs.g, &gs.h, &gs.gv, &gs.hv))?;
    if r.is_ok() == bad {
        return Err(format!("circuit of {} gates, violated={}: {:?}", n, bad, r));
    }
    Ok(())
}

fn p01_random(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &SMALL);
    complete(&p, s, c)
}
fn p01_mid(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &MID);
    complete(&p, s, c)
}
fn p01_large(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &LARGE);
    complete(&p, s, c)
}
fn p01_wide(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen_wide(s);
    complete(&p, s, c)
}

pub fn p01() -> Prop {
    Prop {
        id: "P01",
        rule: "Random programs of commit / multiply / allocate / constrain / randomised-phase calls whose \
               constraints are balanced against the program's own values; non-trivial: at least one gate and \
               one explicit constraint. Each is proved and verified with independently chosen generator surplus, \
               before and after serialisation, with commitments in other representations of the same points, and for \
               circuits of up to 1500 gates.",
        subs: vec![
            Sub { name: "random", f: p01_random, quick: 1200, thorough: 20000, len: 400, fixed: vec![] },
            Sub { name: "mid", f: p01_mid, quick: 200, thorough: 3000, len: 1200, fixed: vec![] },
            Sub { name: "large", f: p01_large, quick: 24, thorough: 300, len: 4000, fixed: vec![] },
            Sub { name: "reps", f: p01_reps, quick: 250, thorough: 5000, len: 1000, fixed: vec![] },
            Sub { name: "huge", f: p01_huge, quick: 12, thorough: 150, len: 8, fixed: vec![] },
            Sub { name: "wide", f: p01_wide, quick: 40, thorough: 600, len: 12, fixed: vec![] },
        ],
    }
}

// ---------------------------------------------------------------- P02

/// Verify several times; all verdicts must agree and equal `want`.
fn verdict(
    want: bool,
    times: usize,
    what: &str,
    f: &dyn Fn() -> Result<(), R1CSError>,
) -> Result<(), String> {
    for k in 0..times {
        let r = no_panic(f)?;
        if r.is_ok() != want {
            return Err(format!(
                "{}: verifier {} (run {}), expected {}",
                what,
                match &r {
                    Ok(()) => "accepted".to_string(),
                    Err(e) => format!("rejected with {:?}", e),
                },
                k,
                if want { "accept" } else { "reject" }
            ));
        }
    }
    Ok(())
}

fn delta(s: &mut Src) -> Fe {
    match s.below(5) {
        0 => Fe::one(),
        1 => Fe::minus_one(),
        2 => s.fe_nz(),
        _ => s.fe_rand(),
    }
}

/// The library's own prover on a system with one or more constraints shifted
fn p02_shift_with(p: &Prog, s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    if p.explicit == 0 {
        c.case(false, p.desc());
        return Ok(());
    }
    let k = s.below(p.explicit);
    let d = delta(s);
    let mut shift = vec![(k, d.clone())];
    // opposite shifts cancel if two constraints get the same weight
    if p.explicit > 1 && s.chance(1, 2) {
        let k2 = (k + 1 + s.below(p.explicit - 1)) % p.explicit;
        let d2 = if s.chance(1, 2) { d.negation() } else { d.clone() };
        shift.push((k2, d2));
        c.class("two shifts");
    }
    if d.is_zero() {
        c.case(false, p.desc());
        return Ok(());
    }
    c.case(true, format!("shift {:?} of {}", shift.iter().map(|x| x.0).collect::<Vec<_>>(), p.desc()));
    c.class(size_class(p));
    let n = p.padded();
    let (g, h, gv, hv) = gens_for(s, n);
    let m = match no_panic(|| real_prove(p, &shift, &g, &h, &gv, &hv))? {
        Ok(m) => m,
        Err(_) => return Ok(()),
    };
    verdict(false, 2, "system with violated linear constraints", &|| {
        real_verify(p, &shift, &m.comms, &m.proof, &g, &h, &gv, &hv).0
    })
}

fn p02_shift(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &SMALL);
    p02_shift_with(&p, s, c)
}
fn p02_shift_mid(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &MID);
    p02_shift_with(&p, s, c)
}

/// An independent prover that follows the protocol with a wrong assignment
fn p02_tamper_with(p: &Prog, s: &mut Src, c: &mut Ctx, lie: bool) -> Result<(), String> {
    let n = p.gates();
    let gs = gens(p.padded());
    let mut opts = Opts::default();
    opts.lie_t = lie;
    let mut shift = vec![];
    if n > 0 {
        let k = if s.chance(1, 3) { 2 } else { 1 };
        let d0 = delta(s);
        let mut first = 0;
        for j in 0..k {
            let i = match s.below(4) {
                // same weight if powers repeat after a block of gates
                0 if j == 1 && n > 8 => (first + (1 << s.range(3, 9))) % n,
                0 => n - 1,
                1 => 0,
                _ => s.below(n),
            };
            first = i;
            let kind = *s.pick(&['o', 'l', 'r', 'o']);
            let d = if j == 1 && s.chance(1, 2) { d0.negation() } else { d0.clone() };
            opts.tamper.push((Wire(kind, i), d));
        }
    } else if p.explicit > 0 {
        shift.push((s.below(p.explicit), delta(s)));
    }
    opts.zero_blinding = s.chance(1, 8);
    let sh = shared(&shift);
    let cs = ref_cs(p, &sh, gs);
    let mut rnd = rng_of(s);
    let rp = ref_prove(cs, gs, &opts, &mut rnd).map_err(|e| format!("reference prover: {:?}", e))?;
    let want = rp.unsat.is_none();
    c.case(
        !want,
        format!(
            "{}tamper {:?} violates {:?} of {}",
            if lie { "lying " } else { "" },
            opts.tamper.iter().map(|x| &x.0).collect::<Vec<_>>(),
            rp.unsat,
            p.desc()
        ),
    );
    c.class(if want { "still satisfied" } else { "unsatisfied" });
    c.class(size_class(p));
    let proof = rp.parts.proof();
    verdict(want, 3, "assignment by reference prover", &|| {
        real_verify(p, &shift, &rp.cs.vp, &proof, &gs.g, &gs.h, &gs.gv, &gs.hv).0
    })
}

fn p02_tamper(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &SMALL);
    p02_tamper_with(&p, s, c, false)
}
fn p02_tamper_mid(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &MID);
    p02_tamper_with(&p, s, c, false)
}
fn p02_lie(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &SMALL);
    p02_tamper_with(&p, s, c, true)
}
fn p02_large(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &LARGE);
    let lie = s.chance(1, 4);
    p02_tamper_with(&p, s, c, lie)
}
fn p02_wide(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen_wide(s);
    let lie = s.chance(1, 4);
    if s.chance(1, 2) {
        p02_tamper_with(&p, s, c, lie)
    } else {
        p02_shift_with(&p, s, c)
    }
}

/// Very many linear constraints over a few values. Shifts sit where counters of 8, 12 or 16 bits or blocks
/// of constraints would end, and cancel each other if two constraints get the same weight.
fn p02_many(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let q = match s.below(24) {
        0..=11 => s.range(60, 1300),
        12..=18 => s.range(1000, 5000),
        19..=22 => s.range(4000, 12000),
        _ => s.range(65000, 67000),
    };
    let m = s.range(1, 4);
    let q2 = match s.below(3) {
        0 => 0,
        1 => s.below(q + 1),
        _ => s.below(40).min(q),
    };
    let gates = s.below(3);
    let seed = s.u();
    let draw = |i: usize, k: u64| mix(seed.wrapping_add((i as u64).wrapping_mul(0x9E37_79B9)).wrapping_add(k << 56));
    let vals: Vec<Fe> = (0..m).map(|i| if i == 0 { Fe::one() } else { Fe::from(draw(i, 1) as u32) }).collect();
    let mut ops: Vec<prog::Op> = vals.iter().enumerate().map(|(i, v)| prog::Op::Commit(v.clone(), Fe::from(draw(i, 2) as u32))).collect();
    for _ in 0..gates {
        let l = vec![(prog::Ref::Var(0), prog::Coef::K(Fe::one()))];
        ops.push(prog::Op::Mult(l.clone(), l));
    }
    let con = |i: usize| {
        let mut lc = vec![];
        let mut v = Fe::zero();
        for k in 0..1 + draw(i, 3) % 2 {
            let j = (draw(i, 4 + k) % m as u64) as usize;
            let w = Fe::from(draw(i, 6 + k) as u16 as u32);
            v = &v + &(&w * &vals[j]);
            lc.push((prog::Ref::Var(j), prog::Coef::K(w)));
        }
        prog::Op::ConstrainTo(lc, v)
    };
    for i in 0..q - q2 {
        ops.push(con(i));
    }
    if q2 > 0 {
        let b: Vec<prog::Op> = (q - q2..q).map(|i| con(i)).collect();
        ops.insert(m, prog::Op::Rand(std::rc::Rc::new(b)));
    }
    let p = Prog {
        label: 0,
        prior: vec![],
        ops,
        commits: m,
        n1: gates,
        n2: 0,
        explicit: q,
        blocks: (q2 > 0) as usize,
        nested: 0,
        half1: false,
        half2: false,
    };
    let d = delta(s);
    let near = |s: &mut Src| {
        let b = 1usize << s.range(4, 16);
        let j = (b * s.range(1, 3) + s.below(5)).saturating_sub(2 + 2 * gates);
        j % q
    };
    let k = match s.below(4) {
        0 => q - 1,
        1 => s.below(q),
        2 => q - 1 - s.below(q / 4),
        _ => near(s),
    };
    let mut shift = vec![(k, d.clone())];
    if s.chance(1, 2) {
        let mut dist = 1usize << s.below(17);
        if s.chance(1, 4) {
            dist = (dist + s.below(3)).saturating_sub(1).max(1);
        }
        while dist >= q {
            dist /= 2;
        }
        let k2 = if k >= dist { k - dist } else { k + dist };
        if k2 < q && k2 != k {
            shift.push((k2, d.negation()));
            c.class("two shifts");
        }
    }
    if d.is_zero() {
        c.case(false, "shift is zero".into());
        return Ok(());
    }
    let ds = format!("{} commitments, {} gates, {}+{} constraints, shifts at {:?}", m, gates, q - q2, q2, shift.iter().map(|x| x.0).collect::<Vec<_>>());
    c.case(true, ds.clone());
    c.class(if q > 65000 { "more than 65000" } else if q > 4000 { "more than 4000" } else if q > 1000 { "more than 1000" } else { "up to 1000" });
    let gs = gens(p.padded());
    let m1 = match no_panic(|| real_prove(&p, &shift, &gs.g, &gs.h, &gs.gv, &gs.hv))? {
        Ok(m) => m,
        Err(_) => return Ok(()),
    };
    verdict(false, 1, &format!("violated linear constraints: {}", ds), &|| {
        real_verify(&p, &shift, &m1.comms, &m1.proof, &gs.g, &gs.h, &gs.gv, &gs.hv).0
    })?;
    let m1 = no_panic(|| real_prove(&p, &[], &gs.g, &gs.h, &gs.gv, &gs.hv))?.map_err(|e| format!("proving {}: {:?}", ds, e))?;
    verdict(true, 1, &format!("satisfied system: {}", ds), &|| {
        real_verify(&p, &[], &m1.comms, &m1.proof, &gs.g, &gs.h, &gs.gv, &gs.hv).0
    })
}

/// Shifted constraints, proved by the lying reference prover
fn p02_lie_shift(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &SMALL);
    if p.explicit == 0 {
        c.case(false, p.desc());
        return Ok(());
    }
    let gs = gens(p.padded());
    let mut shift = vec![(s.below(p.explicit), delta(s))];
    if p.explicit > 1 && s.chance(1, 3) {
        shift.push((s.below(p.explicit), delta(s)));
    }
    let mut opts = Opts::default();
    opts.lie_t = s.chance(2, 3);
    let sh = shared(&shift);
    let cs = ref_cs(&p, &sh, gs);
    let mut rnd = rng_of(s);
    let rp = ref_prove(cs, gs, &opts, &mut rnd).map_err(|e| format!("reference prover: {:?}", e))?;
    let want = rp.unsat.is_none();
    c.case(!want, format!("shift {:?} lie={} {}", shift[0].0, opts.lie_t, p.desc()));
    let proof = rp.parts.proof();
    verdict(want, 3, "shifted constraint by reference prover", &|| {
        real_verify(&p, &shift, &rp.cs.vp, &proof, &gs.g, &gs.h, &gs.gv, &gs.hv).0
    })
}

pub fn p02() -> Prop {
    Prop {
        id: "P02",
        rule: "Random programs made unsatisfied by shifting explicit constraints (library prover) or wires \
               (independent reference prover, also sending the t(x) the verifier expects). Oracle: direct \
               evaluation of every constraint and gate. Non-trivial: the assignment violates at least one.",
        subs: vec![
            Sub { name: "shift", f: p02_shift, quick: 700, thorough: 12000, len: 400, fixed: vec![] },
            Sub { name: "shift-mid", f: p02_shift_mid, quick: 120, thorough: 2000, len: 1200, fixed: vec![] },
            Sub { name: "tamper", f: p02_tamper, quick: 1500, thorough: 30000, len: 400, fixed: vec![] },
            Sub { name: "tamper-mid", f: p02_tamper_mid, quick: 400, thorough: 6000, len: 1200, fixed: vec![] },
            Sub { name: "lie", f: p02_lie, quick: 800, thorough: 15000, len: 400, fixed: vec![] },
            Sub { name: "lie-shift", f: p02_lie_shift, quick: 800, thorough: 15000, len: 400, fixed: vec![] },
            Sub { name: "large", f: p02_large, quick: 60, thorough: 1000, len: 4000, fixed: vec![] },
            Sub { name: "wide", f: p02_wide, quick: 60, thorough: 800, len: 24, fixed: vec![] },
            Sub { name: "many", f: p02_many, quick: 400, thorough: 8000, len: 24, fixed: vec![] },
        ],
    }
}

// ---------------------------------------------------------------- P03

fn pt_eq(a: &G1, b: &G1) -> bool {
    (a - b).is_identity()
}

fn other_point(s: &mut Src, p: &G1, pool: &[G1], gs: &Gens) -> (G1, &'static str) {
    match s.below(9) {
        0 => (p.negation(), "negate"),
        1 => (p + &gs.g, "+g"),
        2 => (p + &(&gs.h * &s.fe_nz()), "+k h"),
        3 => (G1::identity(), "identity"),
        4 => (s.pick(pool).clone(), "copy of another"),
        5 => (p + p, "double"),
        6 => (p + s.pick(gs.gv.as_slice()), "+G[i]"),
        7 => (p + s.pick(gs.hv.as_slice()), "+H[i]"),
        _ => (&gs.g * &s.fe_rand(), "random"),
    }
}

fn other_scalar(s: &mut Src, x: &Fe, pool: &[Fe]) -> (Fe, &'static str) {
    match s.below(7) {
        0 => (x.negation(), "negate"),
        1 => (x + &Fe::one(), "+1"),
        2 => (Fe::zero(), "zero"),
        3 => (s.pick(pool).clone(), "copy of another"),
        4 => (x + x, "double"),
        5 => (x.inverse(), "inverse"),
        _ => (x + &s.fe_rand(), "+random"),
    }
}

/// Change an accepted proof in one place; None if nothing changed
fn mutate_proof(s: &mut Src, p: &Parts, gs: &Gens) -> Option<(Parts, String)> {
    let mut q = p.clone();
    let mut pool = p.pts.clone();
    pool.extend(p.l.iter().cloned());
    pool.extend(p.r.iter().cloned());
    let mut spool = p.sc.clone();
    spool.push(p.a.clone());
    spool.push(p.b.clone());
    let desc;
    match s.below(10) {
        0..=2 => {
            let i = s.below(11);
            let (x, d) = other_point(s, &p.pts[i], &pool, gs);
            q.pts[i] = x;
            desc = format!("{} {}", PT_NAMES[i], d);
        }
        3 | 4 => {
            let i = s.below(3);
            let (x, d) = other_scalar(s, &p.sc[i], &spool);
            q.sc[i] = x;
            desc = format!("{} {}", SC_NAMES[i], d);
        }
        5 => match s.below(6) {
            0 => {
                let (x, d) = other_scalar(s, &p.a, &spool);
                q.a = x;
                desc = format!("a {}", d);
            }
            1 => {
                let (x, d) = other_scalar(s, &p.b, &spool);
                q.b = x;
                desc = format!("b {}", d);
            }
            2 => {
                q.a = p.b.clone();
                q.b = p.a.clone();
                desc = "swap a b".into();
            }
            3 => {
                q.a = p.a.negation();
                q.b = p.b.negation();
                desc = "negate a and b".into();
            }
            4 => {
                let k = s.fe_nz();
                q.a = &p.a * &k;
                q.b = &p.b * &k.inverse();
                desc = "scale a, b keeping the product".into();
            }
            _ => {
                let d = s.fe_nz();
                q.a = &p.a + &d;
                q.b = &p.b - &d;
                desc = "shift a, b keeping the sum".into();
            }
        },
        6 | 7 => {
            let n = p.l.len();
            if n == 0 {
                return None;
            }
            let i = s.below(n);
            match s.below(5) {
                0 => {
                    let (x, d) = other_point(s, &p.l[i], &pool, gs);
                    q.l[i] = x;
                    desc = format!("L[{}] {}", i, d);
                }
                1 => {
                    let (x, d) = other_point(s, &p.r[i], &pool, gs);
                    q.r[i] = x;
                    desc = format!("R[{}] {}", i, d);
                }
                2 => {
                    q.l[i] = p.r[i].clone();
                    q.r[i] = p.l[i].clone();
                    desc = format!("swap L[{}] R[{}]", i, i);
                }
                3 => {
                    let j = s.below(n);
                    q.l.swap(i, j);
                    q.r.swap(i, j);
                    desc = format!("swap rounds {} {}", i, j);
                }
                _ => {
                    let d = &gs.g * &s.fe_nz();
                    q.l[i] = &p.l[i] + &d;
                    q.r[i] = &p.r[i] - &d;
                    desc = format!("shift L[{}], R[{}] keeping the sum", i, i);
                }
            }
        }
        8 => {
            let i = s.below(11);
            let j = s.below(11);
            q.pts.swap(i, j);
            desc = format!("swap {} {}", PT_NAMES[i], PT_NAMES[j]);
        }
        _ => {
            // shift two points in opposite directions
            let i = s.below(11);
            let j = s.below(11);
            let d = if s.chance(1, 2) { gs.g.clone() } else { &gs.h * &s.fe_nz() };
            q.pts[i] = &q.pts[i] + &d;
            q.pts[j] = &q.pts[j] - &d;
            desc = format!("shift {} and {} in opposite directions", PT_NAMES[i], PT_NAMES[j]);
        }
    }
    let same = p.pts.iter().zip(q.pts.iter()).all(|(a, b)| pt_eq(a, b))
        && p.l.iter().zip(q.l.iter()).all(|(a, b)| pt_eq(a, b))
        && p.r.iter().zip(q.r.iter()).all(|(a, b)| pt_eq(a, b))
        && p.sc.iter().zip(q.sc.iter()).all(|(a, b)| feq(a, b))
        && feq(&p.a, &q.a)
        && feq(&p.b, &q.b);
    if same {
        None
    } else {
        Some((q, desc))
    }
}

fn p03_proof(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let small = s.chance(1, 4);
    let p = gen(s, if small { &SMALL } else { &TINY });
    p03_proof_with(&p, s, c)
}
fn p03_proof_wide(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen_wide(s);
    p03_proof_with(&p, s, c)
}
fn p03_proof_with(p: &Prog, s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let gs = gens(p.padded());
    let m = no_panic(|| real_prove(p, &[], &gs.g, &gs.h, &gs.gv, &gs.hv))?
        .map_err(|e| format!("proving failed: {:?}", e))?;
    let parts = Parts::of(&m.proof);
    verdict(true, 2, "unmodified proof", &|| {
        real_verify(p, &[], &m.comms, &m.proof, &gs.g, &gs.h, &gs.gv, &gs.hv).0
    })?;
    let mut descs = vec![];
    for _ in 0..8 {
        if let Some((q, d)) = mutate_proof(s, &parts, gs) {
            let proof = q.proof();
            c.evals += 1;
            c.class(d.split(|ch: char| ch == '[' || ch == ' ').next().unwrap_or("").to_string());
            verdict(false, 2, &format!("proof changed ({})", d), &|| {
                real_verify(p, &[], &m.comms, &proof, &gs.g, &gs.h, &gs.gv, &gs.hv).0
            })?;
            descs.push(d);
        }
    }
    c.case(!descs.is_empty(), format!("{:?} on {}", descs, p.desc()));
    Ok(())
}

/// Every component in turn, for one proof
fn p03_all(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &SMALL);
    let gs = gens(p.padded());
    let m = no_panic(|| real_prove(&p, &[], &gs.g, &gs.h, &gs.gv, &gs.hv))?
        .map_err(|e| format!("proving failed: {:?}", e))?;
    let parts = Parts::of(&m.proof);
    let rounds = parts.l.len();
    let shift = &gs.h * &s.fe_nz();
    let d = s.fe_nz();
    for i in 0..(11 + 3 + 2 + 2 * rounds) {
        let mut q = parts.clone();
        let name = if i < 11 {
            q.pts[i] = &q.pts[i] + &shift;
            PT_NAMES[i].to_string()
        } else if i < 14 {
            q.sc[i - 11] = &q.sc[i - 11] + &d;
            SC_NAMES[i - 11].to_string()
        } else if i == 14 {
            q.a = &q.a + &d;
            "a".into()
        } else if i == 15 {
            q.b = &q.b + &d;
            "b".into()
        } else {
            let k = (i - 16) / 2;
            if i % 2 == 0 {
                q.l[k] = &q.l[k] + &shift;
                format!("L[{}]", k)
            } else {
                q.r[k] = &q.r[k] + &shift;
                format!("R[{}]", k)
            }
        };
        let proof = q.proof();
        c.evals += 1;
        verdict(false, 1, &format!("{} shifted", name), &|| {
            real_verify(&p, &[], &m.comms, &proof, &gs.g, &gs.h, &gs.gv, &gs.hv).0
        })?;
    }
    c.case(true, format!("{} components of {}", 16 + 2 * rounds, p.desc()));
    Ok(())
}

fn p03_comp(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &TINY);
    let gs = gens(p.padded());
    let mut opts = Opts::default();
    let what;
    let d = delta(s);
    if s.chance(1, 4) {
        what = "t_x shifted after the inner-product vectors were fixed".to_string();
        opts.t_shift = Some(d.clone());
        if s.chance(1, 3) {
            opts.comp = Some((s.fe_rand(), Fe::zero(), None));
        }
    } else {
        let k = match s.below(6) {
            0 => Fe::zero(),
            1 | 2 => Fe::one(),
            3 => Fe::minus_one(),
            4 => fe(2),
            _ => s.fe(),
        };
        let ch = *s.pick(&[None, Some("y"), Some("z"), Some("u"), Some("x"), None]);
        what = format!("t_x_blinding + d, e_blinding - {:?} {:?} d", k.to_hex(), ch);
        opts.comp = Some((d.clone(), k, ch));
    }
    c.case(!d.is_zero(), format!("{} on {}", what, p.desc()));
    let sh = shared(&[]);
    let mut rnd = rng_of(s);
    let rp = ref_prove(ref_cs(&p, &sh, gs), gs, &opts, &mut rnd)
        .map_err(|e| format!("reference prover: {:?}", e))?;
    let proof = rp.parts.proof();
    verdict(d.is_zero(), 3, &what, &|| {
        real_verify(&p, &[], &rp.cs.vp, &proof, &gs.g, &gs.h, &gs.gv, &gs.hv).0
    })
}

/// A proof point shifted before it is absorbed, everything else recomputed as if it were not: accepted
/// only if the point has no part in the equations
fn p03_unaccounted(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, if s.peek() % 3 == 0 { &SMALL } else { &TINY });
    let gs = gens(p.padded());
    let k = s.below(11);
    let d = s.fe_nz();
    let j = s.below(p.padded());
    let (dir, w) = match s.below(4) {
        0 | 1 => (gs.hd.clone(), "h".to_string()),
        2 => (gs.gd.clone(), "g".to_string()),
        _ => (gs.gvd[j].clone(), format!("G[{}]", j)),
    };
    let mut opts = Opts::default();
    opts.pt_shift.push((k, &d * &dir));
    opts.zero_blinding = s.chance(1, 8);
    c.case(true, format!("{} shifted along {} of {}", PT_NAMES[k], w, p.desc()));
    c.class(format!("{}{}", PT_NAMES[k], if p.n2 == 0 { " one-phase" } else { "" }));
    let sh = shared(&[]);
    let mut rnd = rng_of(s);
    let rp = ref_prove(ref_cs(&p, &sh, gs), gs, &opts, &mut rnd)
        .map_err(|e| format!("reference prover: {:?}", e))?;
    let proof = rp.parts.proof();
    verdict(false, 2, &format!("{} shifted along {} before it was absorbed", PT_NAMES[k], w), &|| {
        real_verify(&p, &[], &rp.cs.vp, &proof, &gs.g, &gs.h, &gs.gv, &gs.hv).0
    })
}

fn p03_context(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &TINY);
    p03_context_with(&p, s, c)
}
fn p03_context_wide(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen_wide(s);
    p03_context_with(&p, s, c)
}
fn p03_context_with(p: &Prog, s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let gs = gens(p.padded());
    let n = p.padded();
    let m = no_panic(|| real_prove(p, &[], &gs.g, &gs.h, &gs.gv, &gs.hv))?
        .map_err(|e| format!("proving failed: {:?}", e))?;
    let mut descs = vec![];
    for _ in 0..6 {
        let (mut g, mut h) = (gs.g.clone(), gs.h.clone());
        let mut gv = prefix(&gs.gv, n);
        let mut hv = prefix(&gs.hv, n);
        let mut comms = m.comms.clone();
        let mut q = p.clone();
        let mut shift = vec![];
        let mut extra: Option<Vec<u8>> = None;
        let d;
        match s.below(12) {
            0 | 1 => {
                if comms.is_empty() {
                    continue;
                }
                let i = s.below(comms.len());
                let (x, w) = other_point(s, &comms[i], &m.comms, gs);
                if pt_eq(&x, &comms[i]) {
                    continue;
                }
                comms[i] = x;
                d = format!("commitment {} {}", i, w);
            }
            2 => {
                if comms.len() < 2 {
                    continue;
                }
                let i = s.below(comms.len());
                let j = s.below(comms.len());
                if pt_eq(&comms[i], &comms[j]) {
                    continue;
                }
                comms.swap(i, j);
                d = format!("commitments {} {} swapped", i, j);
            }
            3 | 4 => {
                if p.explicit == 0 {
                    continue;
                }
                let k = s.below(p.explicit);
                let dl = delta(s);
                if dl.is_zero() {
                    continue;
                }
                shift.push((k, dl));
                d = format!("constant of constraint {}", k);
            }
            // a system without gates has no use for g (if all constants are 0) and the vectors
            5 | 7 | 8 | 9 if p.gates() == 0 => continue,
            5 => {
                g = &g + &(&gs.h * &s.fe_nz());
                d = "generator g".into();
            }
            6 => {
                h = &h + &(&gs.g * &s.fe_nz());
                d = "generator h".into();
            }
            7 | 8 => {
                let i = s.below(n);
                let (x, w) = other_point(s, &gv[i], gs.gv.as_slice(), gs);
                if pt_eq(&x, &gv[i]) {
                    continue;
                }
                gv[i] = x;
                d = format!("G[{}] {}", i, w);
            }
            9 => {
                let i = s.below(n);
                let (x, w) = other_point(s, &hv[i], gs.gv.as_slice(), gs);
                if pt_eq(&x, &hv[i]) {
                    continue;
                }
                hv[i] = x;
                d = format!("H[{}] {}", i, w);
            }
            10 => {
                q.label = (p.label + 1 + s.below(prog::LABELS.len() - 1)) % prog::LABELS.len();
                d = "transcript label".into();
            }
            _ => {
                if s.chance(1, 2) || p.prior.is_empty() {
                    extra = Some(vec![s.below(256) as u8; s.below(3)]);
                    d = "extra transcript message".into();
                } else {
                    q.prior.pop();
                    d = "missing transcript message".into();
                }
            }
        }
        c.evals += 1;
        c.class(d.split(' ').next().unwrap_or("").to_string());
        verdict(false, 1, &format!("context changed ({})", d), &|| {
            let mut tr = q.transcript();
            if let Some(e) = &extra {
                tr.append_message(b"prior", e);
            }
            real_verify_tr(tr, &q, &shift, &comms, &m.proof, &g, &h, &gv, &hv).0
        })?;
        descs.push(d);
    }
    c.case(!descs.is_empty(), format!("{:?} on {}", descs, p.desc()));
    Ok(())
}

pub fn p03() -> Prop {
    Prop {
        id: "P03",
        rule: "An accepted proof of a random program, changed in one component (or two in a coordinated way), or \
               verified against a changed commitment, constant, generator or transcript; every changed one must be \
               rejected on every run. Compensated changes are built by a reference prover that recomputes the rest \
               of the proof; points are also shifted before they are absorbed, in directions no equation accounts for. Non-trivial: the change alters the group element or scalar.",
        subs: vec![
            Sub { name: "component", f: p03_proof, quick: 300, thorough: 6000, len: 300, fixed: vec![] },
            Sub { name: "component-wide", f: p03_proof_wide, quick: 20, thorough: 400, len: 100, fixed: vec![] },
            Sub { name: "all-components", f: p03_all, quick: 40, thorough: 600, len: 300, fixed: vec![] },
            Sub { name: "compensated", f: p03_comp, quick: 800, thorough: 15000, len: 200, fixed: vec![] },
            Sub { name: "unaccounted", f: p03_unaccounted, quick: 700, thorough: 12000, len: 300, fixed: vec![] },
            Sub { name: "context", f: p03_context, quick: 400, thorough: 8000, len: 250, fixed: vec![] },
            Sub { name: "context-wide", f: p03_context_wide, quick: 24, thorough: 500, len: 100, fixed: vec![] },
        ],
    }
}

// ---------------------------------------------------------------- P04

fn same_run(a: &Shared, b: &Shared, what: &str) -> Result<(), String> {
    let (a, b) = (a.borrow(), b.borrow());
    if a.chals.len() != b.chals.len() || !a.chals.iter().zip(b.chals.iter()).all(|(x, y)| feq(x, y)) {
        return Err(format!("{}: different challenges in the randomised phase", what));
    }
    Ok(())
}

fn p04_with(p: &Prog, s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let gs = gens(p.padded());
    c.case(p.gates() > 0 || p.commits > 0, p.desc());
    c.class(size_class(p));
    // library prover, reference and library verifier
    let m = no_panic(|| real_prove(p, &[], &gs.g, &gs.h, &gs.gv, &gs.hv))?
        .map_err(|e| format!("proving failed: {:?}", e))?;
    let (cs, rsh) = ref_ver_cs(p, &[], &m.comms);
    let v = ref_verify(cs, gs, &Parts::of(&m.proof))?;
    if !v.t_ok || !v.ipp_ok {
        return Err(format!(
            "library proof does not satisfy the documented equations (t: {}, inner product: {})",
            v.t_ok, v.ipp_ok
        ));
    }
    same_run(&m.sh, &rsh, "prover and reference")?;
    if state(&v.end) != m.end {
        return Err("prover's transcript ends differently from the reference".into());
    }
    let (r, end, vsh) =
        no_panic(|| real_verify(p, &[], &m.comms, &m.proof, &gs.g, &gs.h, &gs.gv, &gs.hv))?;
    r.map_err(|e| format!("library proof rejected: {:?}", e))?;
    if end != m.end {
        return Err("transcripts of prover and verifier end differently".into());
    }
    same_run(&m.sh, &vsh, "prover and verifier")?;
    // reference prover, library verifier
    let sh = shared(&[]);
    let mut rnd = rng_of(s);
    let rp = ref_prove(ref_cs(p, &sh, gs), gs, &Opts::default(), &mut rnd)
        .map_err(|e| format!("reference prover: {:?}", e))?;
    let proof = rp.parts.proof();
    let (r, end, vsh) =
        no_panic(|| real_verify(p, &[], &rp.cs.vp, &proof, &gs.g, &gs.h, &gs.gv, &gs.hv))?;
    r.map_err(|e| format!("proof by the reference prover rejected: {:?}", e))?;
    if end != state(&rp.end) {
        return Err("verifier's transcript ends differently from the reference prover's".into());
    }
    same_run(&sh, &vsh, "reference prover and verifier")
}

fn p04_interop(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &SMALL);
    p04_with(&p, s, c)
}
fn p04_wide(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen_wide(s);
    p04_with(&p, s, c)
}
fn p04_mid(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &MID);
    p04_with(&p, s, c)
}

/// The state of the verifier's transcript and the challenges given to callbacks depend on each message
fn p04_depends(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &TINY);
    let gs = gens(p.padded());
    let m = no_panic(|| real_prove(&p, &[], &gs.g, &gs.h, &gs.gv, &gs.hv))?
        .map_err(|e| format!("proving failed: {:?}", e))?;
    let parts = Parts::of(&m.proof);
    let base = no_panic(|| real_verify(&p, &[], &m.comms, &m.proof, &gs.g, &gs.h, &gs.gv, &gs.hv))?;
    let ver = |comms: &[G1], q: &Parts| {
        let proof = q.proof();
        no_panic(|| real_verify(&p, &[], comms, &proof, &gs.g, &gs.h, &gs.gv, &gs.hv))
    };
    let has_ch = !base.2.borrow().chals.is_empty();
    let sh = gs.h.clone();
    let rounds = parts.l.len();
    for i in 0..(14 + 2 * rounds + p.commits) {
        let mut q = parts.clone();
        let mut comms = m.comms.clone();
        let mut first_phase = false;
        let name;
        if i < 11 {
            q.pts[i] = &q.pts[i] + &sh;
            first_phase = i < 3;
            name = PT_NAMES[i].to_string();
        } else if i < 14 {
            q.sc[i - 11] = &q.sc[i - 11] + &Fe::one();
            name = SC_NAMES[i - 11].to_string();
        } else if i < 14 + 2 * rounds {
            let k = (i - 14) / 2;
            if i % 2 == 0 {
                q.l[k] = &q.l[k] + &sh;
            } else {
                q.r[k] = &q.r[k] + &sh;
            }
            name = format!("round message {}", i - 14);
        } else {
            let k = i - 14 - 2 * rounds;
            comms[k] = &comms[k] + &sh;
            first_phase = true;
            name = format!("commitment {}", k);
        }
        c.evals += 1;
        let r = ver(&comms, &q)?;
        if r.1 == base.1 {
            return Err(format!("final transcript state does not depend on {}", name));
        }
        if has_ch {
            let same = feq(&r.2.borrow().chals[0], &base.2.borrow().chals[0]);
            if first_phase && same {
                return Err(format!("randomised-phase challenge does not depend on {}", name));
            }
            if !first_phase && !same {
                return Err(format!("randomised-phase challenge depends on the later message {}", name));
            }
        }
    }
    c.case(true, format!("{} messages of {}", 14 + 2 * rounds + p.commits, p.desc()));
    Ok(())
}

pub fn p04() -> Prop {
    Prop {
        id: "P04",
        rule: "Random programs proved and verified by the library and by an independent implementation of the \
               documented protocol in all combinations; final transcript states and randomised-phase challenges \
               must be equal. Then each message of a proof is changed in turn and must change the final state. \
               Non-trivial: at least one commitment or gate.",
        subs: vec![
            Sub { name: "interop", f: p04_interop, quick: 500, thorough: 10000, len: 400, fixed: vec![] },
            Sub { name: "interop-mid", f: p04_mid, quick: 60, thorough: 1500, len: 1200, fixed: vec![] },
            Sub { name: "interop-wide", f: p04_wide, quick: 40, thorough: 600, len: 12, fixed: vec![] },
            Sub { name: "depends", f: p04_depends, quick: 120, thorough: 2500, len: 200, fixed: vec![] },
        ],
    }
}

// ---------------------------------------------------------------- P08

const NONE: Limits = Limits {
    ops: 16,
    blocks: 3,
    block_ops: 8,
    none_ops: true,
};

fn var_id(v: &Variable) -> String {
    format!("{:?}", v)
}

fn p08_lockstep(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &NONE);
    p08_lockstep_with(&p, s, c)
}
fn p08_wide(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen_wide(s);
    p08_lockstep_with(&p, s, c)
}
fn p08_lockstep_with(p: &Prog, s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    c.case(p.gates() > 0, p.desc());
    c.class(format!("half {}{}", p.half1 as u8, p.half2 as u8));
    let gs = gens(p.padded());
    let sh = shared(&[]);
    let cs = ref_cs(p, &sh, gs);
    let (n1, cons1) = (cs.n, cs.cons.len());
    let mut rnd = rng_of(s);
    let rp = ref_prove(cs, gs, &Opts::default(), &mut rnd)
        .map_err(|e| format!("reference prover: {:?}", e))?;
    let m = no_panic(|| real_prove(p, &[], &gs.g, &gs.h, &gs.gv, &gs.hv))?
        .map_err(|e| format!("proving failed: {:?}", e))?;
    let (r, _, vsh) =
        no_panic(|| real_verify(p, &[], &m.comms, &m.proof, &gs.g, &gs.h, &gs.gv, &gs.hv))?;
    for x in [&sh, &m.sh, &vsh].iter() {
        if let Some(e) = &x.borrow().err {
            return Err(e.clone());
        }
    }
    r.map_err(|e| format!("verification failed: {:?}", e))?;
    let want: Vec<String> = sh.borrow().vars.iter().map(var_id).collect();
    let gotp: Vec<String> = m.sh.borrow().vars.iter().map(var_id).collect();
    let gotv: Vec<String> = vsh.borrow().vars.iter().map(var_id).collect();
    if gotp != want {
        return Err(format!("prover's variables {:?}, expected {:?}", gotp, want));
    }
    if gotv != want {
        return Err(format!("verifier's variables {:?}, expected {:?}", gotv, want));
    }
    if m.n_mult != n1 || m.n_cons != cons1 {
        return Err(format!(
            "prover reports {} gates, {} constraints; expected {}, {}",
            m.n_mult, m.n_cons, n1, cons1
        ));
    }
    if m.sh.borrow().refused != sh.borrow().refused {
        return Err("allocations without a value: different number refused".into());
    }
    let _ = rp;
    // Evaluations: those in phase 2 depend on challenges, which differ from the reference run, so
    // compare them by running the reference with the library's challenges
    let rsh = shared(&[]);
    let mut cs = RefCS::new(p.transcript(), true);
    cs.script = Some(m.sh.borrow().chals.clone());
    run(&mut cs, &p, &rsh, &mut |c: &mut RefCS, _, v, b| c.commit_value(gs, v, b))
        .map_err(|e| format!("{:?}", e))?;
    cs.finish_phase().map_err(|e| format!("{:?}", e))?;
    let (re, me, ve) = (rsh.borrow(), m.sh.borrow(), vsh.borrow());
    if re.evals.len() != me.evals.len() || re.evals.len() != ve.evals.len() {
        return Err("number of evaluations".into());
    }
    for (k, e) in re.evals.iter().enumerate() {
        if !same_opt(e, &me.evals[k]) {
            return Err(format!("prover evaluates combination {} to {:?}, expected {:?}", k, me.evals[k], e));
        }
        if ve.evals[k].is_some() {
            return Err("verifier evaluates a linear combination to something".into());
        }
    }
    Ok(())
}

/// Values of all handed-out variables as the prover sees them, read through evaluate_lc
fn p08_values(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let lim = Limits { ops: 20, blocks: 0, block_ops: 0, none_ops: true };
    let p = gen(s, &lim);
    c.case(p.gates() > 0, p.desc());
    let gs = gens(1);
    let sh = shared(&[]);
    let cs = ref_cs(&p, &sh, gs);
    let mut tr = p.transcript();
    let psh = shared(&[]);
    let mut prover = Prover::new(&gs.g, &gs.h, &mut tr);
    no_panic(|| {
        run(&mut prover, &p, &psh, &mut |c: &mut Prover<'_, '_>, _, v, b| {
            c.commit(v.clone(), b.clone()).1
        })
    })?
    .map_err(|e| format!("building failed: {:?}", e))?;
    let mut all: Vec<Variable> = vec![Variable::One()];
    for i in 0..cs.n {
        all.push(Variable::MultiplierLeft(i));
        all.push(Variable::MultiplierRight(i));
        all.push(Variable::MultiplierOutput(i));
    }
    for i in 0..cs.v.len() {
        all.push(Variable::Committed(i));
    }
    for v in all {
        let lc = v.into();
        let got = prover.evaluate_lc(&lc);
        let want = cs.eval(&lc);
        match got {
            Some(x) if feq(&x, &want) => {}
            other => return Err(format!("prover evaluates {:?} to {:?}, expected {:?}", v, other, want)),
        }
    }
    // the commitments the prover returns are the Pedersen commitments of the values
    if prover.num_multipliers() != cs.n || prover.num_constraints() != cs.cons.len() {
        return Err("reported counts".into());
    }
    Ok(())
}

fn p08_errors(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let gs = gens(64);
    let at = s.below(3);
    let nested = s.chance(1, 3);
    let prover_side = s.chance(1, 2);
    let kind = s.below(3);
    let nb = s.range(1, 3);
    let desc = format!("error #{} in block {} of {} nested={}", kind, at % nb, nb, nested);
    c.case(true, format!("{} on {} side", desc, if prover_side { "prover" } else { "verifier" }));
    let mk = move || -> R1CSError {
        match kind {
            0 => R1CSError::GadgetError { description: "verif marker".to_string() },
            1 => R1CSError::MissingAssignment,
            _ => R1CSError::FormatError,
        }
    };
    let before = s.below(3);
    fn body<R: RandomizedConstraintSystem>(
        cs: &mut R,
        before: usize,
        fail: bool,
        nested: bool,
        e: &dyn Fn() -> R1CSError,
    ) -> Result<(), R1CSError>
    where
        R: 'static,
    {
        let _ = nested;
        for _ in 0..before {
            let x = cs.challenge_scalar(b"c");
            cs.multiply(x.clone().into(), x.into());
        }
        if fail {
            return Err(e());
        }
        Ok(())
    }
    let _ = body::<RefCS>;
    macro_rules! build {
        ($cs:expr) => {{
            for k in 0..nb {
                let fail = k == at % nb;
                $cs.specify_randomized_constraints(move |cs| {
                    for _ in 0..before {
                        let x = cs.challenge_scalar(b"c");
                        cs.multiply(x.clone().into(), x.into());
                    }
                    if fail {
                        if nested {
                            return cs.specify_randomized_constraints(move |_| Err(mk()));
                        }
                        return Err(mk());
                    }
                    Ok(())
                })
                .map_err(|e| format!("registering a callback failed: {:?}", e))?;
            }
        }};
    }
    let r: Result<(), R1CSError> = if prover_side {
        let mut tr = Transcript::new(b"err");
        let mut prover = Prover::new(&gs.g, &gs.h, &mut tr);
        build!(prover);
        no_panic(|| prover.prove(&gs.gv, &gs.hv).map(|_| ()))?
    } else {
        // a proof of the right shape is not needed: the callback runs before anything is checked
        let mut tr = Transcript::new(b"err");
        let prover = Prover::new(&gs.g, &gs.h, &mut tr);
        let proof = prover.prove(&gs.gv, &gs.hv).map_err(|e| format!("{:?}", e))?;
        let mut tr = Transcript::new(b"err");
        let mut ver = Verifier::new(&mut tr);
        build!(ver);
        no_panic(|| ver.verify(&proof, &gs.g, &gs.h, &gs.gv, &gs.hv))?
    };
    let want = format!("{:?}", mk());
    match r {
        Err(e) if format!("{:?}", e) == want => Ok(()),
        other => Err(format!("callback error not propagated: got {:?}, expected {}", other, want)),
    }
}

pub fn p08() -> Prop {
    Prop {
        id: "P08",
        rule: "Random call sequences interpreted over the library's prover and verifier and over a reference \
               constraint system; handed-out variables, counts, evaluated values (all wires read back through \
               evaluate_lc), refusals and propagated errors are compared. Non-trivial: at least one gate.",
        subs: vec![
            Sub { name: "lockstep", f: p08_lockstep, quick: 700, thorough: 12000, len: 500, fixed: vec![] },
            Sub { name: "lockstep-wide", f: p08_wide, quick: 60, thorough: 1000, len: 24, fixed: vec![] },
            Sub { name: "values", f: p08_values, quick: 4000, thorough: 60000, len: 500, fixed: vec![] },
            Sub { name: "errors", f: p08_errors, quick: 400, thorough: 4000, len: 12, fixed: vec![] },
        ],
    }
}

// ---------------------------------------------------------------- P22

fn p22_core(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &SMALL);
    p22_core_with(&p, s, c)
}
fn p22_wide(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen_wide(s);
    p22_core_with(&p, s, c)
}
fn p22_core_with(p: &Prog, s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let n = p.padded();
    let gs = gens((n + 8).max(2 * n));
    let pick = |s: &mut Src| -> usize {
        match s.below(8) {
            0 => s.below(n),
            1 => n - 1,
            2 => n,
            3 => n + s.range(1, 7),
            4 => p.gates().min(gs.gv.len()),
            5 => p.n1,
            6 => 2 * n,
            _ => n / 2,
        }
    };
    let l: Vec<usize> = (0..4).map(|_| pick(s)).collect();
    c.case(l.iter().any(|x| *x != n), format!("needed {} prover G,H={},{} verifier G,H={},{} {}", n, l[0], l[1], l[2], l[3], p.desc()));
    let want_p = l[0] >= n && l[1] >= n;
    let want_v = l[2] >= n && l[3] >= n;
    c.class(format!("prover {} verifier {}", want_p, want_v));
    let check = |r: Result<(), R1CSError>, want: bool, who: &str| -> Result<(), String> {
        match (r, want) {
            (Ok(()), true) => Ok(()),
            (Err(R1CSError::InvalidGeneratorsLength), false) => Ok(()),
            (r, _) => Err(format!(
                "{} with {:?} generators (needed {}): {:?}",
                who, l, n, r
            )),
        }
    };
    let r = no_panic(|| {
        real_prove(p, &[], &gs.g, &gs.h, &prefix(&gs.gv, l[0]), &prefix(&gs.hv, l[1]))
    })?;
    let m = match r {
        Ok(m) => {
            check(Ok(()), want_p, "proving")?;
            m
        }
        Err(e) => {
            check(Err(e), want_p, "proving")?;
            no_panic(|| real_prove(p, &[], &gs.g, &gs.h, &gs.gv, &gs.hv))?
                .map_err(|e| format!("proving with enough generators: {:?}", e))?
        }
    };
    let r = no_panic(|| {
        real_verify(
            p,
            &[],
            &m.comms,
            &m.proof,
            &gs.g,
            &gs.h,
            &prefix(&gs.gv, l[2]),
            &prefix(&gs.hv, l[3]),
        )
        .0
    })?;
    check(r, want_v, "verifying")?;
    // other surplus points are irrelevant
    if want_v {
        let mut gv: Vec<G1> = gs.gv.as_slice()[..n].to_vec();
        let mut hv: Vec<G1> = gs.hv.as_slice()[..n].to_vec();
        for _ in 0..s.below(4) {
            gv.push(G1::identity());
            hv.push(gs.h.clone());
        }
        let r = no_panic(|| {
            real_verify(p, &[], &m.comms, &m.proof, &gs.g, &gs.h, &gv.into(), &hv.into()).0
        })?;
        check(r, true, "verifying with other surplus points")?;
    }
    Ok(())
}

pub fn p22_subs() -> Vec<Sub> {
    vec![
        Sub { name: "core", f: p22_core, quick: 900, thorough: 15000, len: 400, fixed: vec![] },
        Sub { name: "wide", f: p22_wide, quick: 40, thorough: 800, len: 24, fixed: vec![] },
    ]
}

// ---------------------------------------------------------------- P24

fn p24_core(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen(s, &SMALL);
    p24_core_with(&p, s, c)
}
fn p24_wide(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let p = gen_wide(s);
    p24_core_with(&p, s, c)
}
fn p24_core_with(p: &Prog, s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let gs = gens(p.padded());
    let (proof, comms, own) = if s.chance(1, 2) {
        let m = no_panic(|| real_prove(p, &[], &gs.g, &gs.h, &gs.gv, &gs.hv))?
            .map_err(|e| format!("proving failed: {:?}", e))?;
        (m.proof, m.comms, true)
    } else {
        let sh = shared(&[]);
        let mut opts = Opts::default();
        opts.zero_blinding = s.chance(1, 3);
        let mut rnd = rng_of(s);
        let rp = ref_prove(ref_cs(p, &sh, gs), gs, &opts, &mut rnd)
            .map_err(|e| format!("reference prover: {:?}", e))?;
        (rp.parts.proof(), rp.cs.vp.clone(), false)
    };
    c.case(p.gates() > 0, format!("library proof={} {}", own, p.desc()));
    let e = |x: serde_json::Error| format!("serde: {}", x);
    let t1 = serde_json::to_string(&proof).map_err(e)?;
    let b1: R1CSProof = serde_json::from_str(&t1).map_err(e)?;
    let t2 = serde_json::to_string(&b1).map_err(e)?;
    if t1 != t2 {
        return Err("serialising again gives another text".into());
    }
    let b2: R1CSProof = serde_json::from_slice(&serde_json::to_vec_pretty(&b1).map_err(e)?).map_err(e)?;
    let b3: R1CSProof =
        serde_json::from_value(serde_json::to_value(&proof).map_err(e)?).map_err(e)?;
    // every component is preserved, checked on the serialised values and on the public fields
    let j = serde_json::to_value(&proof).map_err(e)?;
    let parts = Parts::of_json(&j);
    for b in [&b1, &b2, &b3].iter() {
        let q = Parts::of(b);
        for i in 0..11 {
            if !pt_eq(&q.pts[i], &parts.pts[i]) {
                return Err(format!("{} not preserved", PT_NAMES[i]));
            }
        }
        for i in 0..3 {
            if !feq(&q.sc[i], &parts.sc[i]) {
                return Err(format!("{} not preserved", SC_NAMES[i]));
            }
        }
        let same = q.l.len() == parts.l.len()
            && q.r.len() == parts.r.len()
            && q.l.iter().zip(parts.l.iter()).all(|(a, b)| pt_eq(a, b))
            && q.r.iter().zip(parts.r.iter()).all(|(a, b)| pt_eq(a, b))
            && feq(&q.a, &parts.a)
            && feq(&q.b, &parts.b);
        if !same {
            return Err("inner-product proof not preserved".into());
        }
        verdict(true, 1, "round-tripped proof", &|| {
            real_verify(p, &[], &comms, b, &gs.g, &gs.h, &gs.gv, &gs.hv).0
        })?;
    }
    // a rejected proof stays rejected
    if let Some((q, d)) = mutate_proof(s, &parts, gs) {
        let bad: R1CSProof = q.proof();
        let text = serde_json::to_string(&bad).map_err(e)?;
        let back: R1CSProof = serde_json::from_str(&text).map_err(e)?;
        verdict(false, 1, &format!("round-tripped altered proof ({})", d), &|| {
            real_verify(p, &[], &comms, &back, &gs.g, &gs.h, &gs.gv, &gs.hv).0
        })?;
    }
    // two different proofs do not share a text
    let mut q = parts.clone();
    let i = s.below(14);
    let name = if i < 11 {
        q.pts[i] = &q.pts[i] + &gs.h;
        PT_NAMES[i]
    } else {
        q.sc[i - 11] = &q.sc[i - 11] + &Fe::one();
        SC_NAMES[i - 11]
    };
    if serde_json::to_string(&q.proof()).map_err(e)? == t1 {
        return Err(format!("text does not depend on {}", name));
    }
    let _ = FieldElement::zero();
    Ok(())
}

pub fn p24() -> Prop {
    Prop {
        id: "P24",
        rule: "Proofs of random programs (by the library and by the reference prover, also with zero blindings so \
               that components are the identity) serialised to text, bytes and value and back; texts, components \
               and verdicts compared. Non-trivial: at least one gate.",
        subs: vec![
            Sub { name: "roundtrip", f: p24_core, quick: 500, thorough: 8000, len: 420, fixed: vec![] },
            Sub { name: "wide", f: p24_wide, quick: 30, thorough: 500, len: 60, fixed: vec![] },
        ],
    }
}
