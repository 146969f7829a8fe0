//! Independent reference of the hashes and of the hash tree. Poseidon's round constants come from a
//! copy of the published table (data/poseidon.json), its matrix is the Cauchy matrix 1/(w + i + j).

use crate::refcs::{feq, Fe};
use crate::src::fe;
use amcl_wrapper::constants::MODBYTES;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::{PoseidonParams, SboxType};
use std::collections::BTreeMap;
use std::sync::OnceLock;

pub struct Table {
    pub keys: BTreeMap<usize, Vec<Fe>>,
    pub mds: BTreeMap<usize, Vec<Vec<Fe>>>,
    /// matrices of the published table
    pub mds_table: BTreeMap<usize, Vec<Fe>>,
}

pub fn fe_hex(h: &str) -> Fe {
    assert!(h.len() <= 2 * MODBYTES);
    let h = format!("{:0>w$}", h, w = 2 * MODBYTES);
    let mut b = [0u8; MODBYTES];
    for i in 0..MODBYTES {
        b[i] = u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap();
    }
    Fe::from(&b)
}

pub fn table() -> &'static Table {
    static T: OnceLock<Table> = OnceLock::new();
    T.get_or_init(|| {
        let j: serde_json::Value = serde_json::from_str(include_str!("../data/poseidon.json")).unwrap();
        let read = |k: String| -> Vec<Fe> {
            j[&k].as_array().unwrap().iter().map(|x| fe_hex(x.as_str().unwrap())).collect()
        };
        let mut t = Table {
            keys: BTreeMap::new(),
            mds: BTreeMap::new(),
            mds_table: BTreeMap::new(),
        };
        for w in [3usize, 5, 9].iter() {
            t.keys.insert(*w, read(format!("ROUND_CONSTS_W_{}", w)));
            t.mds_table.insert(*w, read(format!("MDS_ENTRIES_W_{}", w)));
            t.mds.insert(
                *w,
                (0..*w)
                    .map(|i| (0..*w).map(|j| fe((w + i + j) as u64).inverse()).collect())
                    .collect(),
            );
        }
        t
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Sb {
    Cube,
    Quint,
    Inv,
}

impl Sb {
    pub fn lib(&self) -> SboxType {
        match self {
            Sb::Cube => SboxType::Cube,
            Sb::Quint => SboxType::Quint,
            Sb::Inv => SboxType::Inverse,
        }
    }
    fn apply(&self, x: &Fe, hit_zero: &mut bool) -> Fe {
        let x2 = x * x;
        match self {
            Sb::Cube => &x2 * x,
            Sb::Quint => &(&x2 * &x2) * x,
            Sb::Inv => {
                if x.is_zero() {
                    *hit_zero = true;
                    Fe::zero()
                } else {
                    x.inverse()
                }
            }
        }
    }
}

/// A Poseidon instance: width, rounds and S-box, and the library's parameters for it.
#[derive(Clone, Debug)]
pub struct Hp {
    pub w: usize,
    pub rb: usize,
    pub rp: usize,
    pub re: usize,
    pub sb: Sb,
    pub params: PoseidonParams,
}

impl Hp {
    pub fn new(w: usize, rb: usize, re: usize, rp: usize, sb: Sb) -> Hp {
        Hp {
            w,
            rb,
            rp,
            re,
            sb,
            params: PoseidonParams::new(w, rb, re, rp),
        }
    }
    pub fn desc(&self) -> String {
        format!("w{} {}+{}+{} {:?}", self.w, self.rb, self.rp, self.re, self.sb)
    }
    pub fn gates(&self) -> usize {
        let per = match self.sb {
            Sb::Cube => 2,
            _ => 3,
        };
        per * (self.w * (self.rb + self.re) + self.rp)
    }
    /// Result of the permutation and whether an inverse S-box met a zero
    pub fn permute(&self, input: &[Fe]) -> (Vec<Fe>, bool) {
        let t = table();
        let (keys, mds) = (&t.keys[&self.w], &t.mds[&self.w]);
        let mut z = false;
        let mut st = input.to_vec();
        for r in 0..self.rb + self.rp + self.re {
            for i in 0..self.w {
                st[i] = &st[i] + &keys[r * self.w + i];
            }
            let full = r < self.rb || r >= self.rb + self.rp;
            let from = if full { 0 } else { self.w - 1 };
            for i in from..self.w {
                st[i] = self.sb.apply(&st[i], &mut z);
            }
            st = (0..self.w)
                .map(|i| {
                    let mut s = Fe::zero();
                    for j in 0..self.w {
                        s = &s + &(&mds[i][j] * &st[j]);
                    }
                    s
                })
                .collect();
        }
        (st, z)
    }
    pub fn hash_z(&self, inputs: &[Fe]) -> (Fe, bool) {
        assert_eq!(inputs.len() + 1, self.w);
        let mut st = vec![Fe::zero()];
        st.extend_from_slice(inputs);
        let (o, z) = self.permute(&st);
        (o[1].clone(), z)
    }
    pub fn hash(&self, inputs: &[Fe]) -> Fe {
        self.hash_z(inputs).0
    }
}

pub fn ref_mimc(l: &Fe, r: &Fe, consts: &[Fe]) -> Fe {
    let (mut l, mut r) = (l.clone(), r.clone());
    for c in consts {
        let x = &l + c;
        let n = &(&(&x * &x) * &x) + &r;
        r = l;
        l = n;
    }
    l
}

/// Bit i of the canonical representative
pub fn bit_of(x: &Fe, i: usize) -> bool {
    let b = x.to_bytes();
    let byte = b[b.len() - 1 - i / 8];
    (byte >> (i % 8)) & 1 == 1
}

/// Value if it fits in 64 bits
pub fn as_u64(x: &Fe) -> Option<u64> {
    let b = x.to_bytes();
    if b[..b.len() - 8].iter().any(|v| *v != 0) {
        return None;
    }
    let mut r = 0u64;
    for v in &b[b.len() - 8..] {
        r = (r << 8) | *v as u64;
    }
    if feq(&fe(r), x) {
        Some(r)
    } else {
        None
    }
}

/// Digits of an index from the root down; None if it is not an index of a tree of that depth
pub fn digits(idx: &Fe, ary: usize, depth: usize) -> Option<Vec<usize>> {
    let k = ary.trailing_zeros() as usize;
    let total = 8 * idx.to_bytes().len();
    for i in k * depth..total {
        if bit_of(idx, i) {
            return None;
        }
    }
    Some(low_digits(idx, ary, depth))
}

/// Lowest digits, from the root down
pub fn low_digits(idx: &Fe, ary: usize, depth: usize) -> Vec<usize> {
    let k = ary.trailing_zeros() as usize;
    let mut r = vec![];
    for d in (0..depth).rev() {
        let mut v = 0;
        for b in 0..k {
            if bit_of(idx, k * d + b) {
                v |= 1 << b;
            }
        }
        r.push(v);
    }
    r
}

/// Root that a path (nodes from the root down) gives. None if the path or the index do not fit.
pub fn path_root(hp: &Hp, leaf: &Fe, idx: &Fe, nodes: &[Vec<Fe>], depth: usize) -> (Option<Fe>, bool) {
    let ary = hp.w - 1;
    let mut z = false;
    let dg = match digits(idx, ary, depth) {
        Some(d) => d,
        None => return (None, false),
    };
    if nodes.len() != depth {
        return (None, false);
    }
    let mut cur = leaf.clone();
    for l in (0..depth).rev() {
        let mut ch = nodes[l].clone();
        ch.insert(dg[l], cur);
        let (h, zz) = hp.hash_z(&ch);
        z |= zz;
        cur = h;
    }
    (Some(cur), z)
}

/// Reference tree: a map of leaves; root and paths are computed from it alone.
pub struct RefTree {
    pub ary: usize,
    pub depth: usize,
    pub leaves: BTreeMap<Vec<usize>, Fe>,
}

pub fn empties(hp: &Hp, depth: usize) -> Vec<Fe> {
    let ary = hp.w - 1;
    let mut e = vec![Fe::zero()];
    for i in 0..depth {
        let p = e[i].clone();
        e.push(hp.hash(&vec![p; ary]));
    }
    e
}

impl RefTree {
    pub fn node(&self, hp: &Hp, em: &[Fe], prefix: &[usize]) -> Fe {
        let l = prefix.len();
        if !self.leaves.keys().any(|k| k.starts_with(prefix)) {
            return em[self.depth - l].clone();
        }
        if l == self.depth {
            return self.leaves[prefix].clone();
        }
        let ch: Vec<Fe> = (0..self.ary)
            .map(|d| {
                let mut p = prefix.to_vec();
                p.push(d);
                self.node(hp, em, &p)
            })
            .collect();
        hp.hash(&ch)
    }
    pub fn root(&self, hp: &Hp, em: &[Fe]) -> Fe {
        self.node(hp, em, &[])
    }
    /// Siblings from the root down
    pub fn path(&self, hp: &Hp, em: &[Fe], dg: &[usize]) -> Vec<Vec<Fe>> {
        let mut r = vec![];
        for l in 0..self.depth {
            let mut row = vec![];
            for d in 0..self.ary {
                if d != dg[l] {
                    let mut p = dg[..l].to_vec();
                    p.push(d);
                    row.push(self.node(hp, em, &p));
                }
            }
            r.push(row);
        }
        r
    }
    pub fn get(&self, dg: &[usize]) -> Fe {
        self.leaves.get(dg).cloned().unwrap_or_else(Fe::zero)
    }
}
