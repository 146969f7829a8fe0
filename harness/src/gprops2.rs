//! P16 (hash), P18 (trees), P20 (randomizer), P25 (utilities)

use crate::fw::*;
use crate::gprops::{label_of, other_than};
use crate::refcs::*;
use crate::refhash::*;
use crate::src::{fe, fe_seed, mix, Src};
use amcl_wrapper::constants::MODBYTES;
use amcl_wrapper::field_elem::{FieldElement, FieldElementVector};
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use amcl_wrapper::group_elem_g1::G1;
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_8_ary::*;
use bulletproofs_amcl::r1cs::gadgets::randomizer::*;
use bulletproofs_amcl::r1cs::{R1CSProof, Variable};
use bulletproofs_amcl::utils::hash_db::{HashDb, InMemoryHashDb};
use bulletproofs_amcl::utils::{gen_challenges, get_generators};
use merlin::Transcript;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

// ---------------------------------------------------------------- P16

const CAPS: [(usize, usize); 3] = [(3, 63), (5, 64), (9, 65)];

/// Any instance, up to the largest the table of constants allows
fn any_hp(s: &mut Src, w: usize) -> Hp {
    let cap = CAPS.iter().find(|x| x.0 == w).unwrap().1;
    let sb = *s.pick(&[Sb::Quint, Sb::Cube, Sb::Inv]);
    let (rb, re, rp) = match s.below(6) {
        0 => (4, 4, *s.pick(&[55usize, 1, 0])),
        1 => {
            // everything the table has
            let rb = s.below(6);
            let re = s.below(6);
            (rb, re, cap - rb - re)
        }
        2 => (s.below(3), s.below(3), 0),
        3 => (0, 0, s.below(4)),
        4 => (s.below(cap + 1), 0, 0),
        _ => (s.below(5), s.below(5), s.below(12)),
    };
    let rp = rp.min(cap - rb - re);
    Hp::new(w, rb, re, rp, sb)
}

fn p16_hash(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let w = *s.pick(&[3usize, 5, 9]);
    let hp = any_hp(s, w);
    let mut ins: Vec<Fe> = (0..w).map(|_| s.fe()).collect();
    if hp.sb == Sb::Inv && s.chance(1, 3) {
        let i = s.below(w);
        ins[i] = table().keys[&w][i].negation();
    }
    c.case(hp.rb + hp.re + hp.rp > 0, format!("{} {}", hp.desc(), ins.iter().map(|x| x.to_hex()).collect::<Vec<_>>().join(",")));
    c.class(format!("w{} {:?}", w, hp.sb));
    let (want, _) = hp.permute(&ins);
    let got = no_panic(|| Poseidon_permutation(&ins, &hp.params, &hp.sb.lib()))?;
    if got.len() != w {
        return Err(format!("permutation has {} outputs", got.len()));
    }
    for i in 0..w {
        if !feq(&got[i], &want[i]) {
            return Err(format!("output {} of the permutation {} differs from the specification", i, hp.desc()));
        }
    }
    let k = w - 1;
    let x = ins[..k].to_vec();
    let want = hp.hash(&x);
    let got = no_panic(|| match k {
        2 => Poseidon_hash_2(x[0].clone(), x[1].clone(), &hp.params, &hp.sb.lib()),
        4 => Poseidon_hash_4(x.clone(), &hp.params, &hp.sb.lib()),
        _ => Poseidon_hash_8(x.clone(), &hp.params, &hp.sb.lib()),
    })?;
    if !feq(&got, &want) {
        return Err(format!("{}:1 hash {} differs from the specification", k, hp.desc()));
    }
    Ok(())
}

fn det(m: &[Vec<Fe>]) -> Fe {
    let n = m.len();
    let mut m = m.to_vec();
    let mut d = Fe::one();
    for c in 0..n {
        let p = match (c..n).find(|r| !m[*r][c].is_zero()) {
            Some(p) => p,
            None => return Fe::zero(),
        };
        if p != c {
            m.swap(p, c);
            d = d.negation();
        }
        d = &d * &m[c][c];
        let inv = m[c][c].inverse();
        for r in c + 1..n {
            let f = &m[r][c] * &inv;
            for k in c..n {
                let t = &f * &m[c][k];
                m[r][k] = &m[r][k] - &t;
            }
        }
    }
    d
}

/// Parameters hold the published constants and an invertible matrix without singular minors
fn p16_params(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let w = *s.pick(&[3usize, 5, 9]);
    let hp = any_hp(s, w);
    let rows: Vec<usize> = (0..w).filter(|_| s.chance(1, 2)).collect();
    let mut cols: Vec<usize> = (0..w).collect();
    let mut seed = s.u();
    while cols.len() > rows.len() {
        seed = mix(seed);
        let i = (seed % cols.len() as u64) as usize;
        cols.remove(i);
    }
    c.case(true, format!("{} minor {:?} {:?}", hp.desc(), rows, cols));
    let p = &hp.params;
    if p.width != w || p.full_rounds_beginning != hp.rb || p.full_rounds_end != hp.re || p.partial_rounds != hp.rp {
        return Err(format!("parameters of {} are {} {}+{}+{}", hp.desc(), p.width, p.full_rounds_beginning, p.partial_rounds, p.full_rounds_end));
    }
    let need = w * (hp.rb + hp.rp + hp.re);
    if p.round_keys.len() < need {
        return Err(format!("{} round keys for {}", p.round_keys.len(), hp.desc()));
    }
    for i in 0..need {
        if !feq(&p.round_keys[i], &table().keys[&w][i]) {
            return Err(format!("round key {} of width {} is not the published one", i, w));
        }
    }
    if p.MDS_matrix.len() != w || p.MDS_matrix.iter().any(|r| r.len() != w) {
        return Err(format!("shape of the matrix of width {}", w));
    }
    for i in 0..w {
        for j in 0..w {
            if !feq(&p.MDS_matrix[i][j], &table().mds[&w][i][j]) {
                return Err(format!("matrix entry {},{} of width {} is not the published one", i, j, w));
            }
        }
    }
    let m: Vec<Vec<Fe>> = rows.iter().map(|i| cols.iter().map(|j| p.MDS_matrix[*i][*j].clone()).collect()).collect();
    if det(&m).is_zero() {
        return Err(format!("singular minor {:?} {:?} of width {}", rows, cols, w));
    }
    Ok(())
}

fn p16_refuse(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let (w, rb, re, rp) = if s.chance(1, 2) {
        let mut w = s.below(20);
        if w == 3 || w == 5 || w == 9 {
            w += 1;
        }
        (w, s.below(5), s.below(5), s.below(60))
    } else {
        let (w, cap) = *s.pick(&CAPS);
        let (rb, re) = (s.below(9), s.below(9));
        let over = 1 + if s.chance(1, 2) { 0 } else { s.below(100) };
        (w, rb, re, cap + over - rb - re)
    };
    c.case(true, format!("width {} rounds {}+{}+{}", w, rb, rp, re));
    match no_panic(|| PoseidonParams::new(w, rb, re, rp)) {
        Err(_) => Ok(()),
        Ok(p) => {
            // accepted: only right if the hash then follows the published constants, which do not exist
            Err(format!("width {} with {}+{}+{} rounds is not refused ({} round keys)", w, rb, rp, re, p.round_keys.len()))
        }
    }
}

pub fn p16() -> Prop {
    Prop {
        id: "P16",
        rule: "Random inputs (special values, zeros of the S-box), widths, S-boxes and round splits up to the largest the \
               constants allow, against an independent implementation over a copy of the published constants and the \
               Cauchy matrix; parameters compared entry by entry, random minors of the matrix; unsupported widths and \
               round counts. Non-trivial: at least one round.",
        subs: vec![
            Sub { name: "hash", f: p16_hash, quick: 1500, thorough: 60000, len: 60, fixed: vec![] },
            Sub { name: "params", f: p16_params, quick: 600, thorough: 12000, len: 40, fixed: vec![] },
            Sub { name: "refuse", f: p16_refuse, quick: 200, thorough: 4000, len: 12, fixed: vec![] },
        ],
    }
}

// ---------------------------------------------------------------- P18

/// The two trees behind one interface
trait Tree: Sized {
    const ARY: usize;
    type Db;
    fn db() -> Self::Db;
    fn new(p: &Rc<Hp>, depth: usize, db: &mut Self::Db) -> Self;
    fn root(&self) -> Fe;
    fn at(&self, root: &Fe) -> Self;
    fn update(&mut self, i: &Fe, v: Fe, db: &mut Self::Db) -> Result<Fe, R1CSError>;
    fn get(&self, i: &Fe, proof: bool, db: &Self::Db) -> Result<(Fe, Option<Vec<Vec<Fe>>>), R1CSError>;
    fn verify(&self, i: &Fe, v: &Fe, proof: &[Vec<Fe>], root: Option<&Fe>) -> bool;
    fn path(i: &Fe, depth: usize) -> Vec<u8>;
    fn repr(i: &Fe, n: usize) -> Vec<u8>;
}

fn arr<const N: usize>(v: &[Fe]) -> [Fe; N] {
    let mut it = v.iter().cloned();
    std::array::from_fn(|_| it.next().unwrap())
}

macro_rules! tree {
    ($name:ident, $lib:ident, $dbval:ty, $ary:expr, $repr:ident) => {
        struct $name {
            t: $lib<'static>,
        }
        impl Tree for $name {
            const ARY: usize = $ary;
            type Db = InMemoryHashDb<$dbval>;
            fn db() -> Self::Db {
                InMemoryHashDb::new()
            }
            fn new(p: &Rc<Hp>, depth: usize, db: &mut Self::Db) -> Self {
                let params: &'static PoseidonParams = leak(p);
                $name { t: $lib::new(params, depth, db) }
            }
            fn root(&self) -> Fe {
                self.t.root.clone()
            }
            fn at(&self, root: &Fe) -> Self {
                let mut t = self.t.clone();
                t.root = root.clone();
                $name { t }
            }
            fn update(&mut self, i: &Fe, v: Fe, db: &mut Self::Db) -> Result<Fe, R1CSError> {
                self.t.update(i, v, db)
            }
            fn get(&self, i: &Fe, proof: bool, db: &Self::Db) -> Result<(Fe, Option<Vec<Vec<Fe>>>), R1CSError> {
                let mut p = if proof { Some(vec![]) } else { None };
                let v = self.t.get(i, &mut p, db)?;
                Ok((v, p.map(|x| x.into_iter().map(|n| n.to_vec()).collect())))
            }
            fn verify(&self, i: &Fe, v: &Fe, proof: &[Vec<Fe>], root: Option<&Fe>) -> bool {
                let p: Vec<[Fe; $ary - 1]> = proof.iter().map(|n| arr(n)).collect();
                self.t.verify_proof(i, v, &p, root)
            }
            fn path(i: &Fe, depth: usize) -> Vec<u8> {
                $lib::leaf_index_to_path(i, depth)
            }
            fn repr(i: &Fe, n: usize) -> Vec<u8> {
                $repr(i, n)
            }
        }
    };
}
tree!(T4, VanillaSparseMerkleTree_4, DBVal_4_ary, 4, get_base_4_repr);
tree!(T8, VanillaSparseMerkleTree_8, DBVal_8_ary, 8, get_base_8_repr);

/// Parameters with static lifetime (the trees borrow them); a small cache, as instances repeat
fn leak(p: &Rc<Hp>) -> &'static PoseidonParams {
    use std::cell::RefCell;
    thread_local! {
        static C: RefCell<HashMap<String, &'static PoseidonParams>> = RefCell::new(HashMap::new());
    }
    C.with(|c| {
        *c.borrow_mut().entry(p.desc()).or_insert_with(|| Box::leak(Box::new(p.params.clone())))
    })
}

fn tree_hp(s: &mut Src, w: usize) -> Rc<Hp> {
    let (rb, re, rp) = *s.pick(&[(0usize, 0usize, 1usize), (1, 0, 0), (1, 1, 1), (0, 0, 3), (2, 1, 2)]);
    Rc::new(Hp::new(w, rb, re, rp, Sb::Quint))
}

fn fe_index(s: &mut Src, dg: &[usize], ary: usize) -> Fe {
    let i = crate::gprops::index_of(dg, ary);
    // the same index in another representation
    match s.below(4) {
        0 => {
            let r = s.fe();
            &(&i + &r) - &r
        }
        1 => &i.negation().negation() + &Fe::zero(),
        _ => i,
    }
}

fn gen_depth(s: &mut Src, ary: usize) -> usize {
    let top = if ary == 4 { 126 } else { 84 };
    match s.below(12) {
        0 => 0,
        1 | 2 => 1,
        3..=6 => 2,
        7 | 8 => 3,
        9 => 4 + s.below(2),
        10 => 6 + s.below(8),
        _ => top - s.below(12),
    }
}

fn p18_history<T: Tree>(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let ary = T::ARY;
    let hp = tree_hp(s, ary + 1);
    let depth = gen_depth(s, ary);
    let em = empties(&hp, depth);
    let mut db = T::db();
    let tree = no_panic(|| T::new(&hp, depth, &mut db))?;
    let empty = RefTree { ary, depth, leaves: BTreeMap::new() };
    if !feq(&tree.root(), &empty.root(&hp, &em)) {
        return Err(format!("root of the empty tree of depth {} ({})", depth, hp.desc()));
    }
    // pool of positions that share prefixes
    let npos = 2 + s.below(6);
    let mut pool: Vec<Vec<usize>> = vec![];
    let first: Vec<usize> = (0..depth).map(|_| s.below(ary)).collect();
    pool.push(first.clone());
    for _ in 1..npos {
        let mut d = pool[s.below(pool.len())].clone();
        if depth > 0 {
            match s.below(5) {
                0 => d[depth - 1] = s.below(ary),
                1 => d[0] = s.below(ary),
                2 => d = vec![ary - 1; depth],
                3 => d = vec![0; depth],
                _ => {
                    let l = s.below(depth);
                    d[l] = s.below(ary);
                }
            }
        }
        pool.push(d);
    }
    // histories: several trees share the store
    let mut cur: Vec<(T, BTreeMap<Vec<usize>, Fe>)> = vec![(tree, BTreeMap::new())];
    let mut snaps: Vec<(Fe, BTreeMap<Vec<usize>, Fe>)> = vec![(cur[0].0.root(), BTreeMap::new())];
    let nops = 2 + s.below(if depth > 20 { 4 } else { 10 });
    let mut desc = format!("{}-ary depth {} {}:", ary, depth, hp.desc());
    for _ in 0..nops {
        let k = s.below(cur.len());
        match s.below(8) {
            0 if cur.len() < 3 => {
                // a second tree from an earlier root
                let (r, m) = snaps[s.below(snaps.len())].clone();
                let t = cur[0].0.at(&r);
                cur.push((t, m));
                desc += " branch";
            }
            1 if cur.len() < 3 => {
                // a new empty tree in the same store
                let t = no_panic(|| T::new(&hp, depth, &mut db))?;
                cur.push((t, BTreeMap::new()));
                desc += " new";
            }
            2 => {
                let d = pool[s.below(pool.len())].clone();
                let i = fe_index(s, &d, ary);
                let (v, _) = no_panic(|| cur[k].0.get(&i, false, &db))?.map_err(|e| format!("{:?} after{}", e, desc))?;
                let want = cur[k].1.get(&d).cloned().unwrap_or_else(Fe::zero);
                if !feq(&v, &want) {
                    return Err(format!("lookup of {:?} is not the last value written, after{}", d, desc));
                }
            }
            _ => {
                let d = pool[s.below(pool.len())].clone();
                let i = fe_index(s, &d, ary);
                let v = match s.below(6) {
                    0 => Fe::zero(),
                    1 => cur[k].1.values().next().cloned().unwrap_or_else(Fe::one),
                    2 => cur[k].0.root(),
                    _ => s.fe(),
                };
                desc += &format!(" t{}[{:?}]={}", k, if depth < 8 { &d[..] } else { &d[..8] }, &v.to_hex()[..6]);
                let r = no_panic(|| cur[k].0.update(&i, v.clone(), &mut db))?.map_err(|e| format!("{:?} after{}", e, desc))?;
                cur[k].1.insert(d.clone(), v);
                let rt = RefTree { ary, depth, leaves: cur[k].1.clone() };
                let want = rt.root(&hp, &em);
                if !feq(&cur[k].0.root(), &want) || !feq(&r, &want) {
                    return Err(format!("root is not the hash of the contents after {}", desc));
                }
                snaps.push((cur[k].0.root(), cur[k].1.clone()));
            }
        }
    }
    c.case(snaps.len() > 2, desc.clone());
    c.class(format!("depth {}", match depth { 0 => "0", 1..=3 => "1-3", 4..=20 => "4-20", _ => ">20" }));
    // every earlier root still holds what it held
    for _ in 0..4 {
        let (r, m) = snaps[s.below(snaps.len())].clone();
        let any = s.below(cur.len());
        let t = cur[any].0.at(&r);
        let d = if s.chance(1, 5) { (0..depth).map(|_| s.below(ary)).collect() } else { pool[s.below(pool.len())].clone() };
        let i = fe_index(s, &d, ary);
        let rt = RefTree { ary, depth, leaves: m };
        let (v, p) = no_panic(|| t.get(&i, true, &db))?.map_err(|e| format!("{:?} at an earlier root after {}", e, desc))?;
        c.evals += 1;
        if !feq(&v, &rt.get(&d)) {
            return Err(format!("value of {:?} at an earlier root after {}", d, desc));
        }
        let p = p.unwrap();
        let want = rt.path(&hp, &em, &d);
        if p.len() != depth || (0..depth).any(|l| p[l].len() != ary - 1 || (0..ary - 1).any(|j| !feq(&p[l][j], &want[l][j]))) {
            return Err(format!("membership proof of {:?} is not its path after {}", d, desc));
        }
        // the proof holds, whichever tree checks it
        if !no_panic(|| t.verify(&i, &v, &p, None))? || !no_panic(|| cur[0].0.verify(&i, &v, &p, Some(&r)))? {
            return Err(format!("membership proof of {:?} is rejected after {}", d, desc));
        }
        // any other combination holds exactly when it hashes to the root
        for _ in 0..6 {
            let (mut i2, mut v2, mut p2, mut r2) = (i.clone(), v.clone(), p.clone(), r.clone());
            let what = match s.below(8) {
                0 => {
                    v2 = other_than(s, &v2);
                    "value"
                }
                1 | 2 if depth > 0 => {
                    let mut d2 = d.clone();
                    let l = s.below(depth);
                    d2[l] = (d2[l] + 1 + s.below(ary - 1)) % ary;
                    i2 = crate::gprops::index_of(&d2, ary);
                    "index"
                }
                3 => {
                    r2 = snaps[s.below(snaps.len())].0.clone();
                    "root"
                }
                4 | 5 if depth > 0 => {
                    let (l, j) = (s.below(depth), s.below(ary - 1));
                    p2[l][j] = other_than(s, &p2[l][j]);
                    "node"
                }
                6 => {
                    match s.below(4) {
                        0 => {
                            p2.pop();
                        }
                        1 => {
                            if depth > 0 {
                                p2.remove(0);
                            }
                        }
                        2 => p2.push(vec![Fe::zero(); ary - 1]),
                        _ => p2.clear(),
                    }
                    "length"
                }
                7 if depth > 1 => {
                    let (a, b) = (s.below(depth), s.below(depth));
                    p2.swap(a, b);
                    "order of levels"
                }
                _ => {
                    if depth > 0 {
                        let l = s.below(depth);
                        p2[l].reverse();
                    }
                    "order of nodes"
                }
            };
            let want = match path_root(&hp, &v2, &i2, &p2, depth).0 {
                Some(x) => feq(&x, &r2),
                None => false,
            };
            let t2 = cur[any].0.at(&r2);
            let got = if s.chance(1, 2) {
                no_panic(|| t2.verify(&i2, &v2, &p2, None))
            } else {
                no_panic(|| cur[0].0.verify(&i2, &v2, &p2, Some(&r2)))
            }
            .map_err(|e| format!("{} for a membership proof with altered {}", e, what))?;
            c.evals += 1;
            c.class(format!("altered {}: {}", what, want));
            if got != want {
                return Err(format!("membership proof with altered {}: {} instead of {} after {}", what, got, want, desc));
            }
        }
    }
    // same contents, other order, other store
    let k = s.below(cur.len());
    let mut items: Vec<(Vec<usize>, Fe)> = cur[k].1.clone().into_iter().collect();
    let n = items.len();
    for i in (1..n).rev() {
        let j = s.below(i + 1);
        items.swap(i, j);
    }
    let mut db2 = T::db();
    let mut t2 = no_panic(|| T::new(&hp, depth, &mut db2))?;
    for (d, v) in items {
        let i = crate::gprops::index_of(&d, ary);
        no_panic(|| t2.update(&i, v, &mut db2))?.map_err(|e| format!("{:?}", e))?;
    }
    if !feq(&t2.root(), &cur[k].0.root()) {
        return Err(format!("root depends on the order of updates: {}", desc));
    }
    // a store without the nodes: an error that names the root
    if depth > 0 {
        let empty = T::db();
        match no_panic(|| cur[k].0.get(&Fe::zero(), true, &empty))? {
            Err(R1CSError::HashNotFoundInDB { hash }) if hash == cur[k].0.root().to_bytes() => {}
            r => return Err(format!("lookup in an empty store: {:?}", r.map(|x| x.0))),
        }
    }
    Ok(())
}
fn p18_h4(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    p18_history::<T4>(s, c)
}
fn p18_h8(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    p18_history::<T8>(s, c)
}

/// Path of an index: its digits, most significant first
fn p18_digits<T: Tree>(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let top = if T::ARY == 4 { 127 } else { 85 };
    let n = s.below(top + 1);
    let x = s.fe();
    c.case(n > 0, format!("{}-ary digits of {} at depth {}", T::ARY, x.to_hex(), n));
    let want: Vec<u8> = low_digits(&x, T::ARY, n).into_iter().map(|d| d as u8).collect();
    let got = no_panic(|| (T::repr(&x, n), T::path(&x, n)))?;
    if got.0 != want || got.1 != want {
        return Err(format!("digits of {} at depth {}: {:?} {:?}", x.to_hex(), n, got.0, got.1));
    }
    Ok(())
}
fn p18_d4(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    p18_digits::<T4>(s, c)
}
fn p18_d8(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    p18_digits::<T8>(s, c)
}

pub fn p18() -> Prop {
    Prop {
        id: "P18",
        rule: "Random histories of updates (positions sharing prefixes, overwrites, zero writes, values that are roots) over \
               up to three trees that share a store and branch off earlier roots; a map of leaves hashed by an \
               independent hash is the model for roots, lookups at current and earlier roots and membership proofs; \
               altered value, index, root, node, level order and length are accepted exactly when the reference path \
               hashes to the root. Depths 0 to 126. Non-trivial: at least two updates.",
        subs: vec![
            Sub { name: "history4", f: p18_h4, quick: 700, thorough: 20000, len: 260, fixed: vec![] },
            Sub { name: "history8", f: p18_h8, quick: 400, thorough: 12000, len: 260, fixed: vec![] },
            Sub { name: "digits4", f: p18_d4, quick: 800, thorough: 20000, len: 6, fixed: vec![] },
            Sub { name: "digits8", f: p18_d8, quick: 800, thorough: 20000, len: 6, fixed: vec![] },
        ],
    }
}

// ---------------------------------------------------------------- P20

struct Rz {
    depth: usize,
    hp: Rc<Hp>,
    params: &'static PoseidonParams,
    orig: VanillaSparseMerkleTree_4<'static>,
    odb: InMemoryHashDb<DBVal_4_ary>,
    new: VanillaSparseMerkleTree_4<'static>,
    ndb: InMemoryHashDb<DBVal_4_ary>,
    /// contents of the new tree
    leaves: BTreeMap<Vec<usize>, Fe>,
    dg: Vec<Vec<usize>>,
    idx: Vec<Fe>,
    vals: Vec<Fe>,
    desc: String,
}

fn gen_rz(s: &mut Src, max_hash: usize) -> Result<Rz, String> {
    let hp = Rc::new(match s.below(3) {
        0 => Hp::new(5, 0, 0, 1, Sb::Quint),
        1 => Hp::new(5, 0, 0, 2, Sb::Quint),
        _ => Hp::new(5, 1, 0, 1, Sb::Quint),
    });
    let params = leak(&hp);
    let shape = s.below(6);
    let depth = if shape == 5 { 5 + s.below(8) } else { 1 + s.below(4) };
    let per = 2 * depth * hp.gates();
    let max_hash = if shape == 4 { max_hash.max(300) } else { max_hash };
    let maxc = (max_hash / per).max(1).min(if shape == 4 { 24 } else { 6 });
    let cells = 4usize.pow(depth as u32);
    let nmod = (1 + s.below(maxc)).min(cells);
    let mut dg: Vec<Vec<usize>> = vec![];
    while dg.len() < nmod {
        let mut d: Vec<usize> = if dg.is_empty() || s.chance(1, 2) {
            (0..depth).map(|_| s.below(4)).collect()
        } else {
            // a neighbour
            let mut d = dg[dg.len() - 1].clone();
            d[depth - 1] = s.below(4);
            d
        };
        let mut l = depth;
        while dg.contains(&d) {
            // next position
            l -= 1;
            d[l] = (d[l] + 1) % 4;
            if d[l] != 0 {
                l = depth;
            }
            if l == 0 {
                l = depth;
            }
        }
        dg.push(d);
    }
    if dg.len() < maxc && s.chance(1, 8) {
        // an index listed twice
        let d = s.pick(&dg).clone();
        let at = s.below(dg.len() + 1);
        dg.insert(at, d);
    }
    let er = |e: R1CSError| format!("{:?}", e);
    let mut odb = InMemoryHashDb::<DBVal_4_ary>::new();
    let mut orig = no_panic(|| VanillaSparseMerkleTree_4::new(params, depth, &mut odb))?;
    let mut leaves: BTreeMap<Vec<usize>, Fe> = BTreeMap::new();
    let extra = s.below(4);
    let mut puts: Vec<(Vec<usize>, Fe)> = vec![];
    for d in dg.iter() {
        if !s.chance(1, 5) {
            puts.push((d.clone(), s.fe()));
        }
    }
    for _ in 0..extra {
        let d: Vec<usize> = (0..depth).map(|_| s.below(4)).collect();
        puts.push((d, s.fe()));
    }
    for (d, v) in puts {
        let i = crate::gprops::index_of(&d, 4);
        no_panic(|| orig.update(&i, v.clone(), &mut odb))?.map_err(er)?;
        leaves.insert(d, v);
    }
    let vals: Vec<Fe> = dg.iter().map(|d| leaves.get(d).cloned().unwrap_or_else(Fe::zero)).collect();
    let idx: Vec<Fe> = dg.iter().map(|d| crate::gprops::index_of(d, 4)).collect();
    let (mut new, mut ndb) = (orig.clone(), odb.clone());
    for k in 0..dg.len() {
        // some of the indices may keep their value
        let v = match s.below(6) {
            0 => continue,
            1 => s.fe(),
            2 => Fe::zero(),
            _ => no_panic(|| randomize(&vals[k]))?,
        };
        no_panic(|| new.update(&idx[k], v.clone(), &mut ndb))?.map_err(er)?;
        leaves.insert(dg[k].clone(), v);
    }
    let desc = format!("depth {} {} indices {:?} of {} leaves", depth, hp.desc(), dg, leaves.len());
    Ok(Rz { depth, hp, params, orig, odb, new, ndb, leaves, dg, idx, vals, desc })
}

/// What the circuit claims about committed root, values and paths, by the reference
fn rz_truth(z: &Rz, root: &Fe, vals: &[Fe], paths: &[Vec<Vec<Fe>>]) -> bool {
    for k in 0..z.dg.len() {
        match path_root(&z.hp, &vals[k], &z.idx[k], &paths[k], z.depth).0 {
            Some(r) if feq(&r, root) => {}
            _ => return false,
        }
    }
    let mut l = z.leaves.clone();
    for k in 0..z.dg.len() {
        l.insert(z.dg[k].clone(), vals[k].clone());
    }
    let em = empties(&z.hp, z.depth);
    feq(&RefTree { ary: 4, depth: z.depth, leaves: l }.root(&z.hp, &em), root)
}

/// The circuit over the reference constraint system with the given committed values
fn rz_natural(
    z: &Rz, label: &'static [u8], gs: &Gens, root: &Fe, vals: &[Fe], paths: &[Vec<Vec<Fe>>], seed: u64,
) -> Result<(RefCS, usize), String> {
    let mut cs = RefCS::new(Transcript::new(label), true);
    let mut k = seed;
    let mut bl = || {
        k = mix(k);
        fe_seed(k)
    };
    let vroot = cs.commit_value(gs, root, &bl());
    let (mut vv, mut vp) = (vec![], vec![]);
    for i in 0..vals.len() {
        vv.push(cs.commit_value(gs, &vals[i], &bl()));
        let ps: Vec<Variable> = paths[i].iter().flatten().map(|x| cs.commit_value(gs, x, &bl())).collect();
        vp.push(ps);
    }
    let nc = cs.vp.len();
    let st = cs.commit_value(gs, &Fe::zero(), &Fe::zero());
    let (mut nt, mut ndb) = (z.new.clone(), z.ndb.clone());
    no_panic(|| {
        randomizer_gadget(
            &mut cs, z.depth, vroot, &mut nt, &mut ndb, z.idx.clone(), vv, vp, vec![st], z.params, &SboxType::Quint,
        )
    })?
    .map_err(|e| format!("{:?}", e))?;
    Ok((cs, nc))
}

fn rz_gates(z: &Rz) -> usize {
    2 * z.dg.len() * z.depth * z.hp.gates()
}

fn rz_check(z: &Rz, proof: &R1CSProof, comms: &[G1], label: &'static [u8], gs: &Gens) -> Result<bool, String> {
    let (mut nt, mut ndb) = (z.new.clone(), z.ndb.clone());
    let r = no_panic(|| {
        verify_proof_for_randomizer(
            &mut nt, &mut ndb, &z.idx, z.depth, z.params, &SboxType::Quint, proof.clone(), comms.to_vec(), label, &gs.g, &gs.h,
            &gs.gv, &gs.hv,
        )
    })?;
    Ok(r.is_ok())
}

fn rz_prove(z: &Rz, label: &'static [u8], gs: &Gens) -> Result<Result<(R1CSProof, Vec<G1>), R1CSError>, String> {
    let (mut nt, mut ndb) = (z.new.clone(), z.ndb.clone());
    no_panic(|| {
        gen_proof_for_randomizer(
            &z.orig, &z.odb, &mut nt, &mut ndb, &z.idx, &z.vals, z.depth, z.params, &SboxType::Quint, label, &gs.g, &gs.h,
            &gs.gv, &gs.hv,
        )
    })
}

fn rz_paths(z: &Rz) -> Result<Vec<Vec<Vec<Fe>>>, String> {
    let mut r = vec![];
    for i in z.idx.iter() {
        let mut p = Some(vec![]);
        no_panic(|| z.orig.get(i, &mut p, &z.odb))?.map_err(|e| format!("{:?}", e))?;
        r.push(p.unwrap().into_iter().map(|n| n.to_vec()).collect());
    }
    Ok(r)
}

fn p20_true(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let z = gen_rz(s, 128)?;
    c.case(true, z.desc.clone());
    c.class(format!("{} indices depth {}", z.dg.len(), z.depth));
    let gs = gens(rz_gates(&z).next_power_of_two());
    let label = label_of(s);
    let (proof, comms) = rz_prove(&z, label, gs)?.map_err(|e| format!("proving failed: {:?} [{}]", e, z.desc))?;
    if comms.len() != 1 + z.dg.len() * (1 + 3 * z.depth) {
        return Err(format!("{} commitments [{}]", comms.len(), z.desc));
    }
    if !rz_check(&z, &proof, &comms, label, gs)? {
        return Err(format!("proof for trees that differ only at the indices is rejected [{}]", z.desc));
    }
    // another public statement: accepted only if it is true of the same original tree
    let mut z2 = Rz { orig: z.orig.clone(), odb: z.odb.clone(), new: z.new.clone(), ndb: z.ndb.clone(), leaves: z.leaves.clone(), dg: z.dg.clone(), idx: z.idx.clone(), vals: z.vals.clone(), desc: String::new(), ..z };
    let what = match s.below(4) {
        0 => {
            // modified elsewhere as well
            let d: Vec<usize> = (0..z2.depth).map(|_| s.below(4)).collect();
            let v = s.fe();
            let i = crate::gprops::index_of(&d, 4);
            let (mut t, mut db) = (z2.new.clone(), z2.ndb.clone());
            no_panic(|| t.update(&i, v.clone(), &mut db))?.map_err(|e| format!("{:?}", e))?;
            z2.new = t;
            z2.ndb = db;
            z2.leaves.insert(d, v);
            "another modified tree"
        }
        1 => {
            let k = s.below(z2.dg.len());
            let mut d = z2.dg[k].clone();
            let l = s.below(z2.depth);
            d[l] = (d[l] + 1 + s.below(3)) % 4;
            z2.idx[k] = crate::gprops::index_of(&d, 4);
            z2.dg[k] = d;
            "another index"
        }
        2 => {
            let n = z2.dg.len();
            let (a, b) = (s.below(n), s.below(n));
            z2.dg.swap(a, b);
            z2.idx.swap(a, b);
            "indices in another order"
        }
        _ => {
            // index beyond the tree: an alias of the same leaf or another one
            let k = s.below(z2.dg.len());
            let d = (z2.dg[k][z2.depth - 1] + 1 + s.below(3)) % 4;
            z2.dg[k][z2.depth - 1] = d;
            z2.idx[k] = crate::gprops::index_of(&z2.dg[k], 4);
            "a sibling index"
        }
    };
    let paths = rz_paths(&z_of(&z2, &z.idx))?;
    let want = rz_truth(&z2, &z2.orig.root.clone(), &z2.vals, &paths);
    let got = rz_check(&z2, &proof, &comms, label, gs)?;
    c.evals += 1;
    c.class(format!("{}: {}", what, want));
    // a proof is bound to the public tree, so only rejection of false statements is demanded
    if got && !want {
        return Err(format!("proof is accepted for {} [{}]", what, z.desc));
    }
    Ok(())
}

/// The same randomizer with other indices
fn z_of(z: &Rz, idx: &[Fe]) -> Rz {
    Rz {
        depth: z.depth, hp: z.hp.clone(), params: z.params, orig: z.orig.clone(), odb: z.odb.clone(), new: z.new.clone(),
        ndb: z.ndb.clone(), leaves: z.leaves.clone(), dg: z.dg.clone(), idx: idx.to_vec(), vals: z.vals.clone(), desc: z.desc.clone(),
    }
}

fn p20_false(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let mut z = gen_rz(s, 200)?;
    let er = |e: R1CSError| format!("{:?}", e);
    let mut root = z.orig.root.clone();
    let mut vals = z.vals.clone();
    let mut paths = rz_paths(&z)?;
    let n = z.dg.len();
    let k = s.below(n);
    let mut lib = false;
    let what = match s.below(8) {
        0 | 1 => {
            // the new tree differs at one more position
            lib = true;
            let mut d: Vec<usize> = (0..z.depth).map(|_| s.below(4)).collect();
            if s.chance(1, 2) {
                d = z.dg[k].clone();
                d[z.depth - 1] = s.below(4);
            }
            let v = s.fe();
            let i = crate::gprops::index_of(&d, 4);
            let (mut t, mut db) = (z.new.clone(), z.ndb.clone());
            no_panic(|| t.update(&i, v.clone(), &mut db))?.map_err(er)?;
            z.new = t;
            z.ndb = db;
            z.leaves.insert(d, v);
            "modified elsewhere"
        }
        2 => {
            vals[k] = other_than(s, &vals[k]);
            "original value"
        }
        3 => {
            let (l, j) = (s.below(z.depth), s.below(3));
            paths[k][l][j] = other_than(s, &paths[k][l][j]);
            "path node"
        }
        4 => {
            root = if s.chance(1, 2) { z.new.root.clone() } else { other_than(s, &root) };
            "original root"
        }
        5 => {
            // value altered together with its root: consistent path, other tree
            vals[k] = other_than(s, &vals[k]);
            root = path_root(&z.hp, &vals[k], &z.idx[k], &paths[k], z.depth).0.unwrap();
            "value and root"
        }
        6 => {
            // root of the new tree updated with an altered value: second claim true, first false
            vals[k] = other_than(s, &vals[k]);
            let mut l = z.leaves.clone();
            for q in 0..n {
                l.insert(z.dg[q].clone(), vals[q].clone());
            }
            let em = empties(&z.hp, z.depth);
            root = RefTree { ary: 4, depth: z.depth, leaves: l }.root(&z.hp, &em);
            "value and root of the update"
        }
        _ => {
            // one claim of the first kind false, all others true: a path of another tree
            let (l, j) = (s.below(z.depth), s.below(3));
            paths[k][l][j] = other_than(s, &paths[k][l][j]);
            "path node"
        }
    };
    let truth = rz_truth(&z, &root, &vals, &paths);
    c.case(!truth, format!("{} ({} of {}) {}", what, k, n, z.desc));
    if truth {
        return Ok(());
    }
    c.class(what);
    let gs = gens(rz_gates(&z).next_power_of_two());
    let label = label_of(s);
    let seed = s.u();
    if lib && s.chance(1, 2) {
        if let Ok(Ok((proof, comms))) = rz_prove(&z, label, gs) {
            c.evals += 1;
            if rz_check(&z, &proof, &comms, label, gs)? {
                return Err(format!("library's proof accepted although false: {} [{}]", what, z.desc));
            }
        }
    }
    let (cs, nc) = rz_natural(&z, label, gs, &root, &vals, &paths, seed)?;
    if cs.unsatisfied().is_none() || cs.n.next_power_of_two() > 1024 {
        // the circuit admits the false claim: shown by a proof below
        c.class("circuit satisfied by a false claim");
    }
    // proving costs more than evaluation: always when the circuit is satisfied, else sometimes
    if cs.unsatisfied().is_none() || s.chance(1, 4) {
        let comms: Vec<G1> = cs.vp[..nc].to_vec();
        let gs2 = gens(cs.n.max(1).next_power_of_two());
        let mut q = seed;
        let mut rn = move || {
            q = mix(q);
            fe_seed(q)
        };
        let rp = ref_prove(cs, gs2, &Opts::default(), &mut rn).map_err(|e| format!("{:?}", e))?;
        if rz_check(&z, &rp.parts.proof(), &comms, label, gs2)? {
            return Err(format!("proof accepted although false: {} (index {} of {}) [{}]", what, k, n, z.desc));
        }
    }
    Ok(())
}

/// The honest circuit is satisfied for any number, order and position of indices
fn p20_eval(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let z = gen_rz(s, 600)?;
    c.case(true, z.desc.clone());
    let gs = gens(64);
    let paths = rz_paths(&z)?;
    let root = z.orig.root.clone();
    if !rz_truth(&z, &root, &z.vals, &paths) {
        return Err(format!("library tree and reference disagree [{}]", z.desc));
    }
    let (cs, nc) = rz_natural(&z, b"x", gs, &root, &z.vals, &paths, 1)?;
    if let Some(u) = cs.unsatisfied() {
        return Err(format!("honest assignment does not satisfy {} [{}]", u, z.desc));
    }
    // a proof made outside the library from the same assignment passes the library's verifier, so the
    // rejections of the false claims above are due to the claims
    if cs.n <= 64 && s.chance(1, 2) {
        let comms: Vec<G1> = cs.vp[..nc].to_vec();
        let mut q = mix(cs.n as u64);
        let mut rn = move || {
            q = mix(q);
            fe_seed(q)
        };
        let rp = ref_prove(cs, gs, &Opts::default(), &mut rn).map_err(|e| format!("{:?}", e))?;
        c.class("reference proof of a true claim");
        if !rz_check(&z, &rp.parts.proof(), &comms, b"x", gs)? {
            return Err(format!("reference proof of a true claim is rejected [{}]", z.desc));
        }
    }
    Ok(())
}

pub fn p20() -> Prop {
    Prop {
        id: "P20",
        rule: "Random 4-ary trees of depth 1 to 12, one to 24 public indices (neighbours and far apart, unwritten and \
               unchanged leaves, any order) and modified values. True: proved and verified by the library. False: \
               modified elsewhere, wrong original value, path node or root at any index, or only one of the two claims \
               kept true; the library's prover and the circuit filled over the reference system, turned into a proof; \
               other public trees, indices and orders for an accepted proof. Truth comes from the reference tree. \
               Non-trivial: every case whose truth is as intended.",
        subs: vec![
            Sub { name: "true", f: p20_true, quick: 90, thorough: 2500, len: 120, fixed: vec![] },
            Sub { name: "false", f: p20_false, quick: 300, thorough: 8000, len: 120, fixed: vec![] },
            Sub { name: "evaluate", f: p20_eval, quick: 250, thorough: 6000, len: 120, fixed: vec![] },
        ],
    }
}

// ---------------------------------------------------------------- P25

fn p25_generators(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let prefix = match s.below(6) {
        0 => "G".to_string(),
        1 => "H".to_string(),
        2 => String::new(),
        3 => format!("G{}", s.below(20)),
        4 => "\u{3b3}\u{1f600} ".to_string(),
        _ => (0..s.below(12)).map(|_| char::from(32 + s.below(90) as u8)).collect(),
    };
    let n = match s.below(4) {
        0 => s.below(3),
        1 => 9 + s.below(4),
        _ => s.below(24),
    };
    c.case(n > 0, format!("{} generators of {:?}", n, prefix));
    let a = no_panic(|| get_generators(&prefix, n))?;
    if a.len() != n {
        return Err(format!("{} generators instead of {}", a.len(), n));
    }
    let mut seen = HashSet::new();
    for (i, p) in a.iter().enumerate() {
        let want = G1::from_msg_hash(format!("{}{}", prefix, i + 1).as_bytes());
        if *p != want || p.to_bytes() != want.to_bytes() {
            return Err(format!("generator {} of {:?} is not the hash of prefix and index", i, prefix));
        }
        if p.is_identity() || !seen.insert(p.to_bytes()) {
            return Err(format!("generator {} of {:?} is the identity or a duplicate", i, prefix));
        }
    }
    let m = s.below(n + 1);
    let b = no_panic(|| get_generators(&prefix, m))?;
    if b.iter().zip(a.iter()).any(|(x, y)| x != y) || b.len() != m {
        return Err("a shorter list is not a prefix of a longer one".into());
    }
    Ok(())
}

/// Long lists: every position keeps its definition
fn p25_many(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let prefix: String = (0..s.below(4)).map(|_| char::from(48 + s.below(70) as u8)).collect();
    let n = 600 + s.below(4400);
    c.case(true, format!("{} generators of {:?}", n, prefix));
    let a = no_panic(|| get_generators(&prefix, n))?;
    if a.len() != n {
        return Err(format!("{} generators instead of {}", a.len(), n));
    }
    let mut seen = HashSet::new();
    for (i, p) in a.iter().enumerate() {
        if p.is_identity() || !seen.insert(p.to_bytes()) {
            return Err(format!("generator {} of {:?} is the identity or a duplicate", i, prefix));
        }
    }
    for k in 0..40 {
        let i = match k {
            0 => n - 1,
            1 => 255,
            2 => 256,
            3 => 511,
            4 => 512,
            5..=12 => (1usize << (k - 1)).min(n - 1),
            _ => s.u() as usize % n,
        };
        if a[i] != G1::from_msg_hash(format!("{}{}", prefix, i + 1).as_bytes()) {
            return Err(format!("generator {} of {:?} is not the hash of prefix and index", i, prefix));
        }
    }
    Ok(())
}

fn p25_challenges(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let pts: Vec<G1> = (0..s.below(5)).map(|_| pt(&s.fe_rand())).collect();
    let st: Vec<u8> = (0..s.below(40)).map(|_| s.u() as u8).collect();
    let n = 1 + s.below(5);
    c.case(true, format!("{} challenges from {} points and {} bytes", n, pts.len(), st.len()));
    let go = |pts: &[G1], st: &[u8], n: usize| {
        let r: Vec<&G1> = pts.iter().collect();
        let mut state = st.to_vec();
        let o = no_panic(|| gen_challenges(&r, &mut state, n))?;
        Ok::<_, String>((o, state))
    };
    let (a, sa) = go(&pts, &st, n)?;
    if a.len() != n {
        return Err(format!("{} challenges instead of {}", a.len(), n));
    }
    // reference
    let mut rs = st.clone();
    for p in pts.iter() {
        rs.extend(p.to_bytes());
    }
    let mut want = vec![FieldElement::from_msg_hash(&rs)];
    for i in 1..n {
        rs.extend((&G1::generator() * &want[i - 1]).to_bytes());
        want.push(FieldElement::from_msg_hash(&rs));
    }
    if a.iter().zip(want.iter()).any(|(x, y)| !feq(x, y)) || sa != rs {
        return Err("challenges differ from the documented chain".into());
    }
    // they depend on every input
    let (mut p2, mut s2) = (pts.clone(), st.clone());
    if !p2.is_empty() && s.chance(1, 2) {
        let i = s.below(p2.len());
        p2[i] = &p2[i] + &G1::generator();
    } else if !s2.is_empty() && s.chance(1, 2) {
        let i = s.below(s2.len());
        s2[i] ^= 1 << s.below(8);
    } else {
        s2.push(s.u() as u8);
    }
    let (b, _) = go(&p2, &s2, n)?;
    if a.iter().zip(b.iter()).any(|(x, y)| feq(x, y)) {
        return Err("a challenge does not depend on all inputs".into());
    }
    for i in 0..n {
        for j in 0..i {
            if feq(&a[i], &a[j]) {
                return Err("challenges repeat".into());
            }
        }
    }
    Ok(())
}

/// Value modulo n of a field element, by its bytes
fn mod_small(x: &Fe, n: u64) -> u64 {
    let mut r: u128 = 0;
    for b in x.to_bytes() {
        r = (r * 256 + b as u128) % n as u128;
    }
    r as u64
}

fn p25_indices(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    use amcl_wrapper::amcl::sha3::{SHA3, SHAKE256};
    let nonce = s.fe();
    let size = match s.below(5) {
        0 => 1 + s.below(4),
        1 => 1usize << s.below(40),
        2 => 1 + s.below(1_000_000),
        _ => 1 + s.below(200),
    };
    let count = match s.below(4) {
        0 => s.below(2),
        1 => size.min(12),
        2 => size.min(30) + s.below(3),
        _ => s.below(10),
    };
    c.case(count > 0, format!("{} of {} for nonce {}", count, size, nonce.to_hex()));
    let got = no_panic(|| get_indices_to_modify(&nonce, size, count))?;
    if got != no_panic(|| get_indices_to_modify(&nonce, size, count))? {
        return Err("index selection is not deterministic".into());
    }
    let mut h = SHA3::new(SHAKE256);
    for b in nonce.to_bytes() {
        h.process(b);
    }
    let mut t = vec![0u8; 2 * count * MODBYTES];
    let len = t.len();
    if len > 0 {
        h.shake(&mut t, len);
    }
    let mut want: HashSet<u64> = HashSet::new();
    for ch in t.chunks(MODBYTES) {
        if want.len() == count {
            break;
        }
        want.insert(mod_small(&FieldElement::from_bytes(ch).unwrap(), size as u64));
    }
    let mut vals = HashSet::new();
    for i in got.iter() {
        match as_u64(i) {
            Some(x) if x < size as u64 => {
                if !vals.insert(x) {
                    return Err(format!("index {} twice", x));
                }
            }
            _ => return Err(format!("index {} out of range {}", i.to_hex(), size)),
        }
    }
    c.class(if vals.len() == count { "full" } else { "stream exhausted" });
    if vals != want {
        return Err(format!("selected {:?} instead of {:?}", vals, want));
    }
    Ok(())
}

fn p25_randomize(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let n = if s.chance(1, 10) { 200 + s.below(900) } else { 1 + s.below(20) };
    let data: Vec<Fe> = (0..n).map(|_| s.fe()).collect();
    let mut idx = HashSet::new();
    for i in 0..n {
        if n < 100 && s.chance(1, 3) {
            idx.insert(fe(i as u64));
        }
    }
    if n >= 100 {
        for _ in 0..s.below(12) {
            idx.insert(fe(s.below(n) as u64));
        }
        idx.insert(fe(n as u64 - 1));
    }
    c.case(!idx.is_empty(), format!("{} of {} positions, first value {}", idx.len(), n, data[0].to_hex()));
    let v: FieldElementVector = data.clone().into();
    let (old, new) = no_panic(|| get_randomized_data(&v, &idx))?;
    if new.len() != n || old.len() != idx.len() {
        return Err(format!("{} values, {} old values for {} positions of {}", new.len(), old.len(), idx.len(), n));
    }
    for i in 0..n {
        let k = fe(i as u64);
        let x = &new[i];
        if idx.contains(&k) {
            let want = FieldElement::from_msg_hash(&data[i].to_bytes());
            if !feq(x, &want) || !feq(&no_panic(|| randomize(&data[i]))?, &want) {
                return Err(format!("position {} is not the hash of the old value", i));
            }
            match old.get(&k) {
                Some(o) if feq(o, &data[i]) => {}
                _ => return Err(format!("old value of position {} is not reported", i)),
            }
        } else if !feq(x, &data[i]) {
            return Err(format!("position {} changed", i));
        }
    }
    Ok(())
}

fn p25_store(s: &mut Src, c: &mut Ctx) -> Result<(), String> {
    let keys: Vec<Vec<u8>> = (0..1 + s.below(6))
        .map(|_| {
            let n = *s.pick(&[0usize, 1, 2, 48, 49, 64, 97, 300]);
            if n > 48 {
                // equal up to the last bytes
                let mut k = vec![7u8; n];
                k[n - 1] = s.u() as u8 % 2;
                return k;
            }
            (0..n).map(|_| s.u() as u8 % 3).collect()
        })
        .collect();
    let mut db = InMemoryHashDb::<u64>::new();
    let mut other: Option<(InMemoryHashDb<u64>, HashMap<Vec<u8>, u64>)> = None;
    let mut model: HashMap<Vec<u8>, u64> = HashMap::new();
    let n = 1 + s.below(20);
    let mut writes = 0;
    for _ in 0..n {
        let k = s.pick(&keys).clone();
        match s.below(5) {
            0 | 1 => {
                let v = s.u();
                db.insert(k.clone(), v);
                model.insert(k, v);
                writes += 1;
            }
            2 if other.is_none() => other = Some((db.clone(), model.clone())),
            _ => {
                let look = |db: &InMemoryHashDb<u64>, m: &HashMap<Vec<u8>, u64>| -> Result<(), String> {
                    match (db.get(&k), m.get(&k)) {
                        (Ok(a), Some(b)) if a == *b => Ok(()),
                        (Err(R1CSError::HashNotFoundInDB { hash }), None) if hash == k => Ok(()),
                        (a, b) => Err(format!("store returns {:?} instead of {:?}", a, b)),
                    }
                };
                look(&db, &model)?;
                if let Some((d, m)) = &other {
                    look(d, m)?;
                }
            }
        }
    }
    c.case(writes > 0, format!("{} operations on {:?}", n, keys));
    Ok(())
}

pub fn p25() -> Prop {
    Prop {
        id: "P25",
        rule: "Random prefixes and counts, points, states, nonces, data sizes (up to 2^39) and store histories against direct \
               references (hash of prefix and index; hash chain; SHAKE stream reduced modulo the size; map). \
               Non-trivial: at least one generator, index, position or write.",
        subs: vec![
            Sub { name: "generators", f: p25_generators, quick: 150, thorough: 3000, len: 20, fixed: vec![] },
            Sub { name: "generators_many", f: p25_many, quick: 6, thorough: 100, len: 60, fixed: vec![] },
            Sub { name: "challenges", f: p25_challenges, quick: 300, thorough: 6000, len: 60, fixed: vec![] },
            Sub { name: "indices", f: p25_indices, quick: 3000, thorough: 60000, len: 12, fixed: vec![] },
            Sub { name: "randomize", f: p25_randomize, quick: 800, thorough: 15000, len: 60, fixed: vec![] },
            Sub { name: "store", f: p25_store, quick: 3000, thorough: 60000, len: 120, fixed: vec![] },
        ],
    }
}

pub fn _unused2() -> usize {
    let v: amcl_wrapper::group_elem_g1::G1Vector = vec![].into();
    v.as_slice().len()
}
