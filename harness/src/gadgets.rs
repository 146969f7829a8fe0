//! The gadgets behind one interface: a statement with its witness, the library's prover, verifier and
//! one-call functions for it, the truth of the statement by an independent reference, and the same
//! circuit filled over the reference constraint system with any (also false) witness.

use crate::refcs::{commit, feq, Fe, Gens, RefCS};
use crate::refhash::*;
use crate::src::fe;
use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::gadgets::bound_check::*;
use bulletproofs_amcl::r1cs::gadgets::hamming_distance::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::bit::bit_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::mimc::mimc_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::non_zero::is_nonzero_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::constrain_lc_with_scalar;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::positive_no::positive_no_gadget;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::{
    Poseidon_hash_2_gadget, Poseidon_hash_4_gadget, Poseidon_hash_8_gadget,
};
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_4_ary::{
    vanilla_merkle_merkle_tree_4_verif_gadget, ProofNode_4_ary,
};
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_8_ary::{
    vanilla_merkle_merkle_tree_8_verif_gadget, ProofNode_8_ary,
};
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::vector_sum::vector_sum_constraints;
use bulletproofs_amcl::r1cs::gadgets::mimc::*;
use bulletproofs_amcl::r1cs::gadgets::non_zero::*;
use bulletproofs_amcl::r1cs::gadgets::poseidon_hash::*;
use bulletproofs_amcl::r1cs::gadgets::set_membership::*;
use bulletproofs_amcl::r1cs::gadgets::set_membership_alt::*;
use bulletproofs_amcl::r1cs::gadgets::set_non_membership::*;
use bulletproofs_amcl::r1cs::gadgets::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::r1cs::gadgets::sparse_merkle_tree_8_ary::*;
use bulletproofs_amcl::r1cs::linear_combination::AllocatedQuantity;
use bulletproofs_amcl::r1cs::{ConstraintSystem, Prover, R1CSProof, Variable, Verifier};
use merlin::Transcript;
use rand::rngs::StdRng;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum St {
    Bound { val: Fe, lower: u64, upper: u64, bits: usize },
    SetMem { val: Fe, set: Vec<Fe> },
    SetAlt { val: Fe, set: Vec<u64> },
    NonMem { val: Fe, set: Vec<Fe> },
    NonZero { val: Fe },
    Hamming { orig: Vec<Fe>, new: Vec<Fe>, count: u64 },
    Mimc { ins: Vec<Fe>, image: Fe, consts: Vec<Fe> },
    Pos { ins: Vec<Fe>, out: Fe, hp: Rc<Hp> },
    /// nodes from the root down
    Merkle { leaf: Fe, idx: Fe, nodes: Vec<Vec<Fe>>, root: Fe, depth: usize, hp: Rc<Hp> },
    /// one of the building blocks, on committed values
    Help { h: Helper, vals: Vec<Fe> },
}

#[derive(Clone, Debug)]
pub enum Helper {
    /// the value is 0 or 1
    Bit,
    /// the values sum to this
    Sum(u64),
    /// the value is below two to the power of this
    Pos(usize),
    /// all values but the last are weights: each is zero unless its item equals the last value, and the
    /// weighted sum of the items is the last value
    Prod(Vec<u64>),
    /// the second value is the inverse of the first
    NonZero,
    /// the first value equals this
    Scalar(Fe),
}

fn help<CS: ConstraintSystem>(cs: &mut CS, h: &Helper, q: Vec<AllocatedQuantity>) -> Res<()> {
    match h {
        Helper::Bit => bit_gadget(cs, &q[0]),
        Helper::Sum(x) => vector_sum_constraints(cs, q.iter().map(|y| y.variable).collect(), *x),
        Helper::Pos(n) => positive_no_gadget(cs, q.into_iter().next().unwrap(), *n),
        Helper::Prod(items) => {
            let k = items.len();
            vector_product_gadget(cs, items, &q[..k], &q[k])
        }
        Helper::NonZero => is_nonzero_gadget(cs, q[0].variable, q[1].variable),
        Helper::Scalar(x) => {
            constrain_lc_with_scalar(cs, q[0].variable.into(), x);
            Ok(())
        }
    }
}

fn help_prove(h: &Helper, vals: &[Fe], bl: Option<Vec<Fe>>, pr: &mut Prover) -> Res<Vec<G1>> {
    let mut comms = vec![];
    let mut q = vec![];
    for (i, v) in vals.iter().enumerate() {
        let b = match &bl {
            Some(b) if i < b.len() => b[i].clone(),
            _ => Fe::random(),
        };
        let (p, var) = pr.commit(v.clone(), b);
        comms.push(p);
        q.push(aq(var, v));
    }
    help(pr, h, q)?;
    Ok(comms)
}

fn help_verify(h: &Helper, comms: Vec<G1>, v: &mut Verifier) -> Res<()> {
    let q = comms
        .into_iter()
        .map(|p| AllocatedQuantity { variable: v.commit(p), assignment: None })
        .collect();
    help(v, h, q)
}

pub type Res<T> = Result<T, R1CSError>;

fn node4(n: &[Fe]) -> ProofNode_4_ary {
    [n[0].clone(), n[1].clone(), n[2].clone()]
}
fn node8(n: &[Fe]) -> ProofNode_8_ary {
    [
        n[0].clone(),
        n[1].clone(),
        n[2].clone(),
        n[3].clone(),
        n[4].clone(),
        n[5].clone(),
        n[6].clone(),
    ]
}

fn aq(variable: Variable, v: &Fe) -> AllocatedQuantity {
    AllocatedQuantity {
        variable,
        assignment: Some(v.clone()),
    }
}

impl St {
    pub fn kind(&self) -> &'static str {
        match self {
            St::Bound { .. } => "bound",
            St::SetMem { .. } => "set_membership",
            St::SetAlt { .. } => "set_membership_alt",
            St::NonMem { .. } => "set_non_membership",
            St::NonZero { .. } => "non_zero",
            St::Hamming { .. } => "hamming",
            St::Mimc { .. } => "mimc",
            St::Pos { ins, .. } => match ins.len() {
                2 => "poseidon2",
                4 => "poseidon4",
                _ => "poseidon8",
            },
            St::Merkle { hp, .. } => {
                if hp.w == 5 {
                    "merkle4"
                } else {
                    "merkle8"
                }
            }
            St::Help { h, .. } => match h {
                Helper::Bit => "bit",
                Helper::Sum(_) => "vector_sum",
                Helper::Pos(_) => "positive_no",
                Helper::Prod(_) => "vector_product",
                Helper::NonZero => "is_nonzero",
                Helper::Scalar(_) => "equals_scalar",
            },
        }
    }

    pub fn desc(&self) -> String {
        let f = |x: &Fe| -> String {
            match as_u64(x) {
                Some(v) => v.to_string(),
                None => match as_u64(&x.negation()) {
                    Some(v) => format!("-{}", v),
                    None => {
                        let h = x.to_hex();
                        h.chars().rev().take(8).collect::<Vec<_>>().into_iter().rev().collect()
                    }
                },
            }
        };
        let fs = |x: &[Fe]| -> String {
            let mut v: Vec<String> = x.iter().take(6).map(|y| f(y)).collect();
            if x.len() > 6 {
                v.push(format!("..{}", x.len()));
            }
            v.join(",")
        };
        match self {
            St::Bound { val, lower, upper, bits } => format!("bound {} in [{},{}] {} bits", f(val), lower, upper, bits),
            St::SetMem { val, set } => format!("mem {} in {{{}}}", f(val), fs(set)),
            St::SetAlt { val, set } => format!(
                "alt {} in {:?}{}",
                f(val),
                &set[..set.len().min(6)],
                if set.len() > 6 { format!("..{}", set.len()) } else { String::new() }
            ),
            St::NonMem { val, set } => format!("nonmem {} in {{{}}}", f(val), fs(set)),
            St::NonZero { val } => format!("nonzero {}", f(val)),
            St::Hamming { orig, new, count } => format!("hamming [{}] [{}] = {}", fs(orig), fs(new), count),
            St::Mimc { ins, image, consts } => format!("mimc({}) {} rounds = {}", fs(ins), consts.len(), f(image)),
            St::Pos { ins, out, hp } => format!("poseidon({}) {} = {}", fs(ins), hp.desc(), f(out)),
            St::Merkle { leaf, idx, root, depth, hp, .. } => {
                format!("merkle leaf {} at {} depth {} root {} {}", f(leaf), f(idx), depth, f(root), hp.desc())
            }
            St::Help { h, vals } => match h {
                Helper::Scalar(x) => format!("{} equals scalar {}", fs(vals), f(x)),
                Helper::Prod(i) => format!("product of {:?} with [{}]", &i[..i.len().min(6)], fs(vals)),
                _ => format!("{:?} [{}]", h, fs(vals)),
            },
        }
    }

    /// Is there a satisfying assignment with these committed values (hidden inputs), by the reference?
    pub fn truth(&self) -> bool {
        match self {
            St::Bound { val, lower, upper, .. } => match as_u64(val) {
                Some(v) => v >= *lower && v <= *upper,
                None => false,
            },
            St::SetMem { val, set } => set.iter().any(|x| feq(x, val)),
            St::SetAlt { val, set } => set.iter().any(|x| feq(&fe(*x), val)),
            St::NonMem { val, set } => !set.iter().any(|x| feq(x, val)),
            St::NonZero { val } => !val.is_zero(),
            St::Hamming { orig, new, count } => {
                orig.len() == new.len()
                    && orig.iter().zip(new.iter()).filter(|(a, b)| !feq(a, b)).count() as u64 == *count
            }
            St::Mimc { ins, image, consts } => feq(&ref_mimc(&ins[0], &ins[1], consts), image),
            St::Pos { ins, out, hp } => {
                let (h, z) = hp.hash_z(ins);
                !z && feq(&h, out)
            }
            St::Merkle { leaf, idx, nodes, root, depth, hp } => match path_root(hp, leaf, idx, nodes, *depth) {
                (Some(r), z) => !z && feq(&r, root),
                _ => false,
            },
            St::Help { h, vals } => match h {
                Helper::Bit => vals[0].is_zero() || feq(&vals[0], &Fe::one()),
                Helper::Sum(x) => {
                    let mut t = Fe::zero();
                    for v in vals {
                        t = &t + v;
                    }
                    feq(&t, &fe(*x))
                }
                Helper::Pos(n) => (*n..256).all(|i| !bit_of(&vals[0], i)),
                Helper::Prod(items) => {
                    let v = &vals[items.len()];
                    let mut t = Fe::zero();
                    for (i, x) in items.iter().enumerate() {
                        t = &t + &(&fe(*x) * &vals[i]);
                    }
                    feq(&t, v) && items.iter().enumerate().all(|(i, x)| vals[i].is_zero() || feq(&fe(*x), v))
                }
                Helper::NonZero => feq(&(&vals[0] * &vals[1]), &Fe::one()),
                Helper::Scalar(x) => feq(&vals[0], x),
            },
        }
    }

    /// Hidden values of the caller with their position in the list of commitments
    pub fn primary(&self) -> Vec<(usize, Fe)> {
        match self {
            St::SetAlt { val, set } => vec![(set.len(), val.clone())],
            St::Bound { val, .. }
            | St::SetMem { val, .. }
            | St::NonMem { val, .. }
            | St::NonZero { val } => vec![(0, val.clone())],
            St::Hamming { orig, .. } => orig.iter().cloned().enumerate().collect(),
            St::Mimc { ins, .. } | St::Pos { ins, .. } => ins.iter().cloned().enumerate().collect(),
            St::Merkle { leaf, idx, .. } => vec![(0, leaf.clone()), (1, idx.clone())],
            St::Help { vals, .. } => vals.iter().cloned().enumerate().collect(),
        }
    }

    /// Number of commitments handed to the verifier
    pub fn num_comms(&self) -> usize {
        match self {
            St::Bound { .. } => 3,
            St::SetMem { set, .. } => set.len() + 1,
            St::SetAlt { set, .. } => set.len() + 1,
            St::NonMem { set, .. } => 2 * set.len() + 1,
            St::NonZero { .. } => 2,
            St::Hamming { new, .. } => new.len(),
            St::Mimc { .. } => 2,
            St::Pos { ins, .. } => ins.len(),
            St::Merkle { depth, hp, .. } => 2 + (hp.w - 2) * depth,
            St::Help { vals, .. } => vals.len(),
        }
    }

    /// Number of blindings the caller can supply
    pub fn num_blindings(&self) -> usize {
        match self {
            St::Hamming { .. } => 0,
            St::Mimc { .. } => 2,
            St::Pos { ins, .. } => ins.len(),
            St::Merkle { .. } => 2,
            St::Help { vals, .. } => vals.len(),
            _ => 1,
        }
    }

    /// Can the library's prover take this witness at all?
    pub fn provable_input(&self) -> bool {
        match self {
            St::Bound { val, lower, upper, .. } => match as_u64(val) {
                Some(v) => v >= *lower && v <= *upper,
                None => false,
            },
            St::SetAlt { val, .. } => as_u64(val).is_some(),
            St::Merkle { nodes, hp, .. } => nodes.iter().all(|n| n.len() == hp.w - 2),
            _ => true,
        }
    }

    pub fn prove(&self, pr: &mut Prover, bl: Option<Vec<Fe>>, rng: Option<&mut StdRng>) -> Res<Vec<G1>> {
        let one = |b: &Option<Vec<Fe>>| b.as_ref().map(|x| x[0].clone());
        match self {
            St::Bound { val, lower, upper, bits } => {
                prove_bounded_num(as_u64(val).unwrap(), one(&bl), *lower, *upper, *bits, rng, pr)
            }
            St::SetMem { val, set } => prove_set_membership(val.clone(), one(&bl), set, rng, pr),
            St::SetAlt { val, set } => prove_set_membership_alt(as_u64(val).unwrap(), one(&bl), set, rng, pr),
            St::NonMem { val, set } => prove_set_non_membership(val.clone(), one(&bl), set, rng, pr),
            St::NonZero { val } => prove_non_zero_val(val.clone(), one(&bl), rng, pr),
            St::Hamming { orig, new, count } => prove_hamming_distance(orig, new, *count, pr),
            St::Mimc { ins, image, consts } => {
                prove_mimc_preimage(ins.clone(), bl, image, consts, consts.len(), rng, pr)
            }
            St::Pos { ins, out, hp } => match hp.w {
                3 => prove_knowledge_of_preimage_of_Poseidon_2(ins.clone(), bl, out, &hp.params, &hp.sb.lib(), rng, pr),
                5 => prove_knowledge_of_preimage_of_Poseidon_4(ins.clone(), bl, out, &hp.params, &hp.sb.lib(), rng, pr),
                _ => prove_knowledge_of_preimage_of_Poseidon_8(ins.clone(), bl, out, &hp.params, &hp.sb.lib(), rng, pr),
            },
            St::Merkle { leaf, idx, nodes, root, depth, hp } => {
                if hp.w == 5 {
                    let p = nodes.iter().map(|n| node4(n)).collect();
                    prove_leaf_inclusion_4_ary_merkle_tree(
                        leaf.clone(), idx.clone(), bl, p, root, *depth, &hp.params, &hp.sb.lib(), rng, pr,
                    )
                } else {
                    let p = nodes.iter().map(|n| node8(n)).collect();
                    prove_leaf_inclusion_8_ary_merkle_tree(
                        leaf.clone(), idx.clone(), bl, p, root, *depth, &hp.params, &hp.sb.lib(), rng, pr,
                    )
                }
            }
            St::Help { h, vals } => help_prove(h, vals, bl, pr),
        }
    }

    pub fn verify(&self, comms: Vec<G1>, g: &G1, h: &G1, v: &mut Verifier) -> Res<()> {
        match self {
            St::Bound { lower, upper, bits, .. } => verify_bounded_num(*lower, *upper, *bits, comms, v),
            St::SetMem { set, .. } => verify_set_membership(set, comms, v),
            St::SetAlt { set, .. } => verify_set_membership_alt(set, comms, v),
            St::NonMem { set, .. } => verify_set_non_membership(set, comms, v),
            St::NonZero { .. } => verify_non_zero_val(comms, v),
            St::Hamming { new, count, .. } => verify_hamming_distance(new, *count, comms, v),
            St::Mimc { image, consts, .. } => verify_mimc_preimage(image, consts, consts.len(), comms, v),
            St::Pos { out, hp, .. } => match hp.w {
                3 => verify_knowledge_of_preimage_of_Poseidon_2(out, &hp.params, &hp.sb.lib(), comms, g, h, v),
                5 => verify_knowledge_of_preimage_of_Poseidon_4(out, &hp.params, &hp.sb.lib(), comms, g, h, v),
                _ => verify_knowledge_of_preimage_of_Poseidon_8(out, &hp.params, &hp.sb.lib(), comms, g, h, v),
            },
            St::Merkle { root, depth, hp, .. } => {
                if hp.w == 5 {
                    verify_leaf_inclusion_4_ary_merkle_tree(root, *depth, &hp.params, &hp.sb.lib(), comms, g, h, v)
                } else {
                    verify_leaf_inclusion_8_ary_merkle_tree(root, *depth, &hp.params, &hp.sb.lib(), comms, g, h, v)
                }
            }
            St::Help { h, .. } => help_verify(h, comms, v),
        }
    }

    /// One-call prover
    pub fn gen(
        &self, bl: Option<Vec<Fe>>, rng: Option<&mut StdRng>, label: &'static [u8], g: &G1, h: &G1, gv: &G1Vector, hv: &G1Vector,
    ) -> Res<(R1CSProof, Vec<G1>)> {
        let one = |b: &Option<Vec<Fe>>| b.as_ref().map(|x| x[0].clone());
        match self {
            St::Bound { val, lower, upper, bits } => {
                gen_proof_of_bounded_num(as_u64(val).unwrap(), one(&bl), *lower, *upper, *bits, rng, label, g, h, gv, hv)
            }
            St::SetMem { val, set } => gen_proof_of_set_membership(val.clone(), one(&bl), set, rng, label, g, h, gv, hv),
            St::SetAlt { val, set } => {
                gen_proof_of_set_membership_alt(as_u64(val).unwrap(), one(&bl), set, rng, label, g, h, gv, hv)
            }
            St::NonMem { val, set } => gen_proof_of_set_non_membership(val.clone(), one(&bl), set, rng, label, g, h, gv, hv),
            St::NonZero { val } => gen_proof_of_non_zero_val(val.clone(), one(&bl), rng, label, g, h, gv, hv),
            St::Hamming { orig, new, count } => gen_proof_for_hamming_distance(orig, new, *count, label, g, h, gv, hv),
            St::Mimc { ins, image, consts } => gen_proof_of_knowledge_of_preimage_of_mimc(
                ins.clone(), bl, image, consts, consts.len(), rng, label, g, h, gv, hv,
            ),
            St::Pos { ins, out, hp } => match hp.w {
                3 => gen_proof_of_knowledge_of_preimage_of_Poseidon_2(
                    ins.clone(), bl, out, &hp.params, &hp.sb.lib(), rng, label, g, h, gv, hv,
                ),
                5 => gen_proof_of_knowledge_of_preimage_of_Poseidon_4(
                    ins.clone(), bl, out, &hp.params, &hp.sb.lib(), rng, label, g, h, gv, hv,
                ),
                _ => gen_proof_of_knowledge_of_preimage_of_Poseidon_8(
                    ins.clone(), bl, out, &hp.params, &hp.sb.lib(), rng, label, g, h, gv, hv,
                ),
            },
            St::Merkle { leaf, idx, nodes, root, depth, hp } => {
                if hp.w == 5 {
                    let p = nodes.iter().map(|n| node4(n)).collect();
                    gen_proof_of_leaf_inclusion_4_ary_merkle_tree(
                        leaf.clone(), idx.clone(), bl, p, root, *depth, &hp.params, &hp.sb.lib(), rng, label, g, h, gv, hv,
                    )
                } else {
                    let p = nodes.iter().map(|n| node8(n)).collect();
                    gen_proof_of_leaf_inclusion_8_ary_merkle_tree(
                        leaf.clone(), idx.clone(), bl, p, root, *depth, &hp.params, &hp.sb.lib(), rng, label, g, h, gv, hv,
                    )
                }
            }
            St::Help { h: hh, vals } => {
                let mut tr = Transcript::new(label);
                let mut pr = Prover::new(g, h, &mut tr);
                let comms = help_prove(hh, vals, bl, &mut pr)?;
                Ok((pr.prove(gv, hv)?, comms))
            }
        }
    }

    /// One-call verifier
    pub fn check(
        &self, proof: R1CSProof, comms: Vec<G1>, label: &'static [u8], g: &G1, h: &G1, gv: &G1Vector, hv: &G1Vector,
    ) -> Res<()> {
        match self {
            St::Bound { lower, upper, bits, .. } => {
                verify_proof_of_bounded_num(*lower, *upper, *bits, proof, comms, label, g, h, gv, hv)
            }
            St::SetMem { set, .. } => verify_proof_of_set_membership(set, proof, comms, label, g, h, gv, hv),
            St::SetAlt { set, .. } => verify_proof_of_set_membership_alt(set, proof, comms, label, g, h, gv, hv),
            St::NonMem { set, .. } => verify_proof_of_set_non_membership(set, proof, comms, label, g, h, gv, hv),
            St::NonZero { .. } => verify_proof_of_non_zero_val(proof, comms, label, g, h, gv, hv),
            St::Hamming { new, count, .. } => {
                verify_proof_for_hamming_distance(new, *count, proof, comms, label, g, h, gv, hv)
            }
            St::Mimc { image, consts, .. } => {
                verify_knowledge_of_preimage_of_mimc(image, consts, consts.len(), proof, comms, label, g, h, gv, hv)
            }
            St::Pos { out, hp, .. } => match hp.w {
                3 => verify_proof_of_knowledge_of_preimage_of_Poseidon_2(
                    out, &hp.params, &hp.sb.lib(), proof, comms, label, g, h, gv, hv,
                ),
                5 => verify_proof_of_knowledge_of_preimage_of_Poseidon_4(
                    out, &hp.params, &hp.sb.lib(), proof, comms, label, g, h, gv, hv,
                ),
                _ => verify_proof_of_knowledge_of_preimage_of_Poseidon_8(
                    out, &hp.params, &hp.sb.lib(), proof, comms, label, g, h, gv, hv,
                ),
            },
            St::Merkle { root, depth, hp, .. } => {
                if hp.w == 5 {
                    verify_proof_of_leaf_inclusion_4_ary_merkle_tree(
                        root, *depth, &hp.params, &hp.sb.lib(), proof, comms, label, g, h, gv, hv,
                    )
                } else {
                    verify_proof_of_leaf_inclusion_8_ary_merkle_tree(
                        root, *depth, &hp.params, &hp.sb.lib(), proof, comms, label, g, h, gv, hv,
                    )
                }
            }
            St::Help { h: hh, .. } => {
                let mut tr = Transcript::new(label);
                let mut v = Verifier::new(&mut tr);
                help_verify(hh, comms, &mut v)?;
                v.verify(&proof, g, h, gv, hv)
            }
        }
    }

    /// The committed values an honest prover would use for this witness, also when the statement is
    /// false. `variant` selects among alternatives (position of the one-hot bit).
    pub fn natural_values(&self, variant: usize) -> Vec<Fe> {
        match self {
            St::Bound { val, lower, upper, .. } => vec![val.clone(), val - &fe(*lower), &fe(*upper) - val],
            St::SetMem { val, set } => {
                let mut r = vec![val.clone()];
                r.extend(set.iter().map(|x| x - val));
                r
            }
            St::SetAlt { val, set } => {
                let hit = set.iter().any(|x| feq(&fe(*x), val));
                let mut r: Vec<Fe> = set
                    .iter()
                    .enumerate()
                    .map(|(i, x)| {
                        if feq(&fe(*x), val) || (!hit && variant > 0 && i == (variant - 1) % set.len()) {
                            Fe::one()
                        } else {
                            Fe::zero()
                        }
                    })
                    .collect();
                r.push(val.clone());
                r
            }
            St::NonMem { val, set } => {
                let mut r = vec![val.clone()];
                for x in set {
                    let d = x - val;
                    r.push(d.clone());
                    r.push(d.inverse());
                }
                r
            }
            St::NonZero { val } => vec![val.clone(), val.inverse()],
            St::Hamming { orig, .. } => orig.clone(),
            St::Mimc { ins, .. } | St::Pos { ins, .. } => ins.clone(),
            St::Merkle { leaf, idx, nodes, .. } => {
                let mut r = vec![leaf.clone(), idx.clone()];
                for n in nodes {
                    r.extend(n.iter().cloned());
                }
                r
            }
            St::Help { vals, .. } => vals.clone(),
        }
    }

    /// Number of statics committed after the caller's commitments
    pub fn num_statics(&self) -> usize {
        match self {
            St::Pos { .. } | St::Merkle { .. } => 1,
            _ => 0,
        }
    }

    /// Fill the circuit over the reference constraint system.
    pub fn natural(&self, cs: &mut RefCS, gs: &Gens, vals: &[Fe], bl: &[Fe]) -> Res<()> {
        let com = |cs: &mut RefCS, i: usize| cs.commit_value(gs, &vals[i], &bl[i]);
        match self {
            St::Bound { lower, upper, bits, .. } => {
                let v: Vec<AllocatedQuantity> = (0..3).map(|i| aq(com(cs, i), &vals[i])).collect();
                let mut v = v.into_iter();
                bound_check_gadget(cs, v.next().unwrap(), v.next().unwrap(), v.next().unwrap(), *upper, *lower, *bits)
            }
            St::SetMem { set, .. } => {
                let v = aq(com(cs, 0), &vals[0]);
                let d = (0..set.len()).map(|i| aq(com(cs, i + 1), &vals[i + 1])).collect();
                set_membership_gadget(cs, v, d, set)
            }
            St::SetAlt { set, .. } => {
                let n = set.len();
                let mut allocs = vec![];
                let mut vars = vec![];
                for i in 0..n {
                    let v = com(cs, i);
                    vars.push(v);
                    let q = aq(v, &vals[i]);
                    bit_gadget(cs, &q)?;
                    allocs.push(q);
                }
                vector_sum_constraints(cs, vars, 1)?;
                let q = aq(com(cs, n), &vals[n]);
                vector_product_gadget(cs, set, &allocs, &q)
            }
            St::NonMem { set, .. } => {
                let v = aq(com(cs, 0), &vals[0]);
                let (mut d, mut di) = (vec![], vec![]);
                for i in 0..set.len() {
                    d.push(aq(com(cs, 2 * i + 1), &vals[2 * i + 1]));
                    di.push(aq(com(cs, 2 * i + 2), &vals[2 * i + 2]));
                }
                set_non_membership_gadget(cs, v, d, di, set)
            }
            St::NonZero { .. } => {
                let (a, b) = (com(cs, 0), com(cs, 1));
                is_nonzero_gadget(cs, a, b)
            }
            St::Hamming { orig, new, count } => {
                let v = (0..orig.len()).map(|i| aq(com(cs, i), &vals[i])).collect();
                hamming_distance_gadget(cs, v, new, *count)
            }
            St::Mimc { image, consts, .. } => {
                let l = aq(com(cs, 0), &vals[0]);
                let r = aq(com(cs, 1), &vals[1]);
                mimc_gadget(cs, l, r, consts.len(), consts, image)
            }
            St::Pos { ins, out, hp } => {
                let v: Vec<Variable> = (0..ins.len()).map(|i| com(cs, i)).collect();
                let z = cs.commit_value(gs, &Fe::zero(), &Fe::zero());
                match hp.w {
                    3 => Poseidon_hash_2_gadget(cs, v[0], v[1], vec![z], &hp.params, &hp.sb.lib(), out),
                    5 => Poseidon_hash_4_gadget(cs, v, vec![z], &hp.params, &hp.sb.lib(), out),
                    _ => Poseidon_hash_8_gadget(cs, v, z, &hp.params, &hp.sb.lib(), out),
                }
            }
            St::Merkle { root, depth, hp, .. } => {
                let leaf = com(cs, 0);
                let idx = aq(com(cs, 1), &vals[1]);
                let v: Vec<Variable> = (2..vals.len()).map(|i| com(cs, i)).collect();
                let z = cs.commit_value(gs, &Fe::zero(), &Fe::zero());
                if hp.w == 5 {
                    vanilla_merkle_merkle_tree_4_verif_gadget(
                        cs, *depth, root, leaf, idx, v, vec![z], &hp.params, &hp.sb.lib(),
                    )
                } else {
                    vanilla_merkle_merkle_tree_8_verif_gadget(cs, *depth, root, leaf, idx, v, z, &hp.params, &hp.sb.lib())
                }
            }
            St::Help { h, .. } => {
                let q = (0..vals.len()).map(|i| aq(com(cs, i), &vals[i])).collect();
                help(cs, h, q)
            }
        }
    }

    /// The same statement with another public result, for the gadgets that have one
    pub fn with_result(&self, x: &Fe) -> Option<St> {
        let mut s = self.clone();
        match &mut s {
            St::Mimc { image, .. } => *image = x.clone(),
            St::Pos { out, .. } => *out = x.clone(),
            St::Merkle { root, .. } => *root = x.clone(),
            _ => return None,
        }
        Some(s)
    }
    pub fn result(&self) -> Option<Fe> {
        match self {
            St::Mimc { image, .. } => Some(image.clone()),
            St::Pos { out, .. } => Some(out.clone()),
            St::Merkle { root, .. } => Some(root.clone()),
            _ => None,
        }
    }

    /// Upper bound of the number of gates
    pub fn gates(&self) -> usize {
        match self {
            St::Bound { bits, .. } => 2 * bits,
            St::SetMem { set, .. } => set.len(),
            St::SetAlt { set, .. } => 3 * set.len(),
            St::NonMem { set, .. } => 2 * set.len(),
            St::NonZero { .. } => 2,
            St::Hamming { new, .. } => 2 * new.len(),
            St::Mimc { consts, .. } => 2 * consts.len(),
            St::Pos { hp, .. } => hp.gates(),
            St::Merkle { hp, depth, .. } => depth * (hp.gates() + if hp.w == 5 { 14 } else { 40 }),
            St::Help { h, .. } => match h {
                Helper::Pos(n) => *n,
                Helper::Prod(i) => 3 * i.len(),
                _ => 2,
            },
        }
    }
    /// Commitments to a list of values
    pub fn points(gs: &Gens, vals: &[Fe], bl: &[Fe]) -> Vec<G1> {
        vals.iter().zip(bl.iter()).map(|(v, b)| commit(gs, v, b)).collect()
    }
}
