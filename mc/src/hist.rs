//! Operation histories of `Map` and `RbTree` on the real code, with the checks every tree property
//! applies to the state a history ends in.
use crate::engine::{guarded, Ctx, Fp, Obs};
use crate::spec::{self, Look, T};
use candid::Principal;
use certified_vars::label::Label;
use certified_vars::rbtree::entry::Entry;
use certified_vars::rbtree::iterator::RbTreeIterator;
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, HashTree, Map};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

pub const CONTENT: i64 = 1;
pub const ROOT: i64 = 2;
pub const MEMBER: i64 = 4;
pub const ABSENT: i64 = 8;
pub const RANGE: i64 = 16;
pub const HEIGHT: i64 = 32;
/// Only cheap probes (for big trees).
pub const SPARSE: i64 = 64;

pub const SHIFT: u32 = 48;
pub fn op(kind: i64, key: i64) -> i64 {
    kind << SHIFT | key
}
pub fn op_key(o: i64) -> i64 {
    o & ((1 << SHIFT) - 1)
}

pub const INS: i64 = 0;
pub const REM: i64 = 1;
pub const REME: i64 = 2;
pub const GETMUT: i64 = 3;
pub const E_INSW: i64 = 4;
pub const E_INS: i64 = 5;
pub const E_ANDMOD: i64 = 6;
pub const E_DEFW: i64 = 7;
pub const E_DEF: i64 = 8;
pub const E_WITH: i64 = 9;
pub const E_WITHKEY: i64 = 10;
pub const E_OCCMUT: i64 = 11;
pub const E_INTOMUT: i64 = 12;
pub const E_REM: i64 = 13;
pub const E_REME: i64 = 14;
pub const CLEAR: i64 = 15;
pub const ROOTHASH: i64 = 16;
pub const WITNESS: i64 = 17;
pub const INSW: i64 = 18;
pub const GETMUT_NOP: i64 = 19;
pub const REBUILD: i64 = 20;
pub const E_MODONLY: i64 = 21;
pub const E_READ: i64 = 22;
pub const GETMUT_ROOT: i64 = 23;
pub const MOVE: i64 = 24;
/// All kinds that take a key.
pub const KEYED: &[i64] = &[
    INS, REM, GETMUT, E_INSW, REME, E_INS, E_ANDMOD, E_DEFW, E_DEF, E_WITH, E_WITHKEY, E_OCCMUT, E_INTOMUT, E_REM,
    E_REME, WITNESS, INSW, GETMUT_NOP, E_MODONLY, E_READ, GETMUT_ROOT,
];
pub const UNKEYED: &[i64] = &[CLEAR, ROOTHASH, REBUILD, MOVE];

/// Keys: built from an index, ordered by it; `lb` is the label the specification of the type asks
/// for, written independently of the crate.
pub trait KT: Label + Ord + Clone + Debug + 'static {
    fn mk(i: i64) -> Self;
    fn lb(&self) -> Vec<u8>;
    fn n() -> i64;
    /// Lookups through a borrowed form where the type has one.
    fn get_b<'a, V: VT>(t: &'a RbTree<Self, V>, k: &Self) -> Option<&'a V> {
        t.get(k)
    }
    fn witness_b<'a, V: VT>(t: &'a RbTree<Self, V>, k: &Self) -> HashTree<'a> {
        t.witness(k)
    }
    fn key_range_b<'a, V: VT>(t: &'a RbTree<Self, V>, a: &Self, b: &Self) -> HashTree<'a> {
        t.key_range(a, b)
    }
    fn value_range_b<'a, V: VT>(t: &'a RbTree<Self, V>, a: &Self, b: &Self) -> HashTree<'a> {
        t.value_range(a, b)
    }
}

pub trait VT: AsHashTree + Clone + Debug + PartialEq + Default + 'static {
    fn mk(n: u64) -> Self;
    /// Bytes of the leaf this value must appear as.
    fn bytes(&self) -> Vec<u8>;
}

impl VT for u32 {
    fn mk(n: u64) -> u32 {
        n as u32
    }
    fn bytes(&self) -> Vec<u8> {
        vec![(self >> 24) as u8, (self >> 16) as u8, (self >> 8) as u8, *self as u8]
    }
}
/// A value of which only a part is certified: the certified parts of different values are often
/// the same.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Hid {
    shown: u8,
    hidden: u64,
}
impl AsHashTree for Hid {
    fn as_hash_tree(&self) -> HashTree<'_> {
        HashTree::Leaf(vec![self.shown].into())
    }
}
impl VT for Hid {
    fn mk(n: u64) -> Self {
        Hid { shown: (n % 5 / 3) as u8, hidden: n }
    }
    fn bytes(&self) -> Vec<u8> {
        vec![self.shown]
    }
}
impl VT for Vec<u8> {
    fn mk(n: u64) -> Self {
        // 1 -> [], then minimal big endian of n - 1
        let mut v = Vec::new();
        let mut x = n - 1;
        while x > 0 {
            v.insert(0, x as u8);
            x >>= 8;
        }
        v
    }
    fn bytes(&self) -> Vec<u8> {
        self.clone()
    }
}
impl VT for String {
    fn mk(n: u64) -> Self {
        "v".repeat((n % 3) as usize) + &n.to_string()
    }
    fn bytes(&self) -> Vec<u8> {
        self.as_bytes().to_vec()
    }
}

impl KT for u64 {
    fn mk(i: i64) -> u64 {
        i as u64
    }
    fn lb(&self) -> Vec<u8> {
        (0..8).rev().map(|s| (self >> (8 * s)) as u8).collect()
    }
    fn n() -> i64 {
        1 << 48
    }
}

pub const STRS: [&str; 8] = ["", "\0", "a", "a\0", "a\0b", "ab", "b", "\u{7ff}z"];
impl KT for String {
    fn mk(i: i64) -> String {
        STRS[i as usize].into()
    }
    fn lb(&self) -> Vec<u8> {
        self.as_bytes().to_vec()
    }
    fn n() -> i64 {
        STRS.len() as i64
    }
    fn get_b<'a, V: VT>(t: &'a RbTree<Self, V>, k: &Self) -> Option<&'a V> {
        t.get(k.as_str())
    }
    fn witness_b<'a, V: VT>(t: &'a RbTree<Self, V>, k: &Self) -> HashTree<'a> {
        t.witness(k.as_str())
    }
    fn key_range_b<'a, V: VT>(t: &'a RbTree<Self, V>, a: &Self, b: &Self) -> HashTree<'a> {
        t.key_range(a.as_str(), b.as_str())
    }
    fn value_range_b<'a, V: VT>(t: &'a RbTree<Self, V>, a: &Self, b: &Self) -> HashTree<'a> {
        t.value_range(a.as_str(), b.as_str())
    }
}

pub const BYTES: [&[u8]; 8] =
    [b"", b"\0", b"\0\0", b"\0\xff", b"\x7f", b"\x80", b"\xff", b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff"];
macro_rules! bytes_kt {
    ($t:ty) => {
        impl KT for $t {
            fn mk(i: i64) -> $t {
                BYTES[i as usize].into()
            }
            fn lb(&self) -> Vec<u8> {
                self.iter().copied().collect()
            }
            fn n() -> i64 {
                BYTES.len() as i64
            }
            fn get_b<'a, V: VT>(t: &'a RbTree<Self, V>, k: &Self) -> Option<&'a V> {
                t.get(&k[..])
            }
            fn witness_b<'a, V: VT>(t: &'a RbTree<Self, V>, k: &Self) -> HashTree<'a> {
                t.witness(&k[..])
            }
            fn key_range_b<'a, V: VT>(t: &'a RbTree<Self, V>, a: &Self, b: &Self) -> HashTree<'a> {
                t.key_range(&a[..], &b[..])
            }
            fn value_range_b<'a, V: VT>(t: &'a RbTree<Self, V>, a: &Self, b: &Self) -> HashTree<'a> {
                t.value_range(&a[..], &b[..])
            }
        }
    };
}
bytes_kt!(Vec<u8>);
bytes_kt!(Box<[u8]>);

impl KT for [u8; 2] {
    fn mk(i: i64) -> [u8; 2] {
        [[0, 0], [0, 1], [0, 255], [1, 0], [127, 255], [128, 0], [255, 254], [255, 255]][i as usize]
    }
    fn lb(&self) -> Vec<u8> {
        self.to_vec()
    }
    fn n() -> i64 {
        8
    }
    fn get_b<'a, V: VT>(t: &'a RbTree<Self, V>, k: &Self) -> Option<&'a V> {
        t.get(&k[..])
    }
    fn witness_b<'a, V: VT>(t: &'a RbTree<Self, V>, k: &Self) -> HashTree<'a> {
        t.witness(&k[..])
    }
}
impl KT for [u8; 32] {
    fn mk(i: i64) -> [u8; 32] {
        let mut a = [0; 32];
        match i {
            0 => (),
            1 => a[31] = 1,
            2 => a[16] = 1,
            3 => a[0] = 1,
            _ => a = [0xff; 32],
        }
        a
    }
    fn lb(&self) -> Vec<u8> {
        self.to_vec()
    }
    fn n() -> i64 {
        5
    }
}
macro_rules! num_kt {
    ($t:ty, $v:expr) => {
        impl KT for $t {
            fn mk(i: i64) -> $t {
                let v: &[$t] = &$v;
                v[i as usize]
            }
            fn lb(&self) -> Vec<u8> {
                let n = std::mem::size_of::<$t>();
                (0..n).rev().map(|s| (self >> (8 * s)) as u8).collect()
            }
            fn n() -> i64 {
                let v: &[$t] = &$v;
                v.len() as i64
            }
        }
    };
}
num_kt!(u8, [0, 1, 2, 127, 128, 200, 254, 255]);
num_kt!(u16, [0, 1, 255, 256, 257, 32768, 65280, 65535]);
num_kt!(u32, [0, 1, 255, 256, 65535, 65536, 1 << 31, u32::MAX]);
num_kt!(u128, [0, 1, 255, 1 << 63, 1 << 64, 1 << 100, u128::MAX - 1, u128::MAX]);
num_kt!(usize, [0, 1, 255, 256, 65536, 1 << 32, 1 << 63, usize::MAX]);

impl KT for bool {
    fn mk(i: i64) -> bool {
        i == 1
    }
    fn lb(&self) -> Vec<u8> {
        vec![*self as u8]
    }
    fn n() -> i64 {
        2
    }
}
pub const PRINS: [&[u8]; 6] = [
    &[0, 0, 0, 0, 0, 0, 0, 0, 1, 1],
    &[0, 0, 0, 0, 0, 0, 0, 1, 1, 1],
    &[0, 0, 0, 0, 0, 0, 1, 0, 1, 1],
    &[0, 0, 0, 0, 1, 0, 0, 0, 1, 1],
    &[127, 0, 0, 0, 0, 0, 0, 0, 1, 1],
    &[255, 0, 0, 0, 0, 0, 0, 0, 1, 1],
];
impl KT for Principal {
    fn mk(i: i64) -> Principal {
        Principal::from_slice(PRINS[i as usize])
    }
    fn lb(&self) -> Vec<u8> {
        self.as_slice().to_vec()
    }
    fn n() -> i64 {
        PRINS.len() as i64
    }
}
macro_rules! ptr_kt {
    ($t:ty, $inner:ty) => {
        impl KT for $t {
            fn mk(i: i64) -> Self {
                <$t>::new(<$inner as KT>::mk(i))
            }
            fn lb(&self) -> Vec<u8> {
                (**self).lb()
            }
            fn n() -> i64 {
                <$inner>::n()
            }
        }
    };
}
ptr_kt!(Rc<String>, String);
ptr_kt!(Box<String>, String);
ptr_kt!(Arc<Vec<u8>>, Vec<u8>);

pub const NKK: i64 = 16;
/// Runs `$f::<K, V>(args)` for key kind `$kk`.
macro_rules! dispatch {
    ($kk:expr, $f:ident ( $($a:expr),* )) => {
        match $kk {
            0 => $f::<u64, u32>($($a),*),
            1 => $f::<String, u32>($($a),*),
            2 => $f::<Vec<u8>, Vec<u8>>($($a),*),
            3 => $f::<Box<[u8]>, String>($($a),*),
            4 => $f::<[u8; 2], Vec<u8>>($($a),*),
            5 => $f::<[u8; 32], u32>($($a),*),
            6 => $f::<u8, u32>($($a),*),
            7 => $f::<u16, String>($($a),*),
            8 => $f::<u32, u32>($($a),*),
            9 => $f::<u128, u32>($($a),*),
            10 => $f::<usize, u32>($($a),*),
            11 => $f::<bool, Vec<u8>>($($a),*),
            12 => $f::<Principal, String>($($a),*),
            13 => $f::<Rc<String>, String>($($a),*),
            14 => $f::<Box<String>, u32>($($a),*),
            15 => $f::<Arc<Vec<u8>>, u32>($($a),*),
            k => panic!("key kind {k}"),
        }
    };
}

pub enum Sut<K: KT, V: VT> {
    M(Map<K, V>),
    R(RbTree<K, V>),
}

impl<K: KT, V: VT> Sut<K, V> {
    pub fn new(which: i64) -> Self {
        if which == 0 {
            Sut::M(Map::new())
        } else {
            Sut::R(RbTree::new())
        }
    }
    pub fn tree(&self) -> &RbTree<K, V> {
        match self {
            Sut::M(m) => m.as_tree(),
            Sut::R(r) => r,
        }
    }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        match self {
            Sut::M(m) => m.entry(k),
            Sut::R(r) => r.entry(k),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Sut::M(m) => m.len(),
            Sut::R(r) => r.len(),
        }
    }
    pub fn entries(&self) -> Vec<(K, V)> {
        match self {
            Sut::M(m) => m.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
            Sut::R(r) => RbTreeIterator::new(r).map(|(k, v)| (k.clone(), v.clone())).collect(),
        }
    }
}

pub type Model<V> = BTreeMap<i64, V>;

pub fn ck(ok: bool, msg: impl FnOnce() -> String) -> Result<(), String> {
    if ok {
        Ok(())
    } else {
        Err(msg())
    }
}

fn dbg<X: Debug>(x: &X) -> String {
    let s = format!("{x:?}");
    if s.len() > 600 {
        format!("{}...", &s.chars().take(600).collect::<String>())
    } else {
        s
    }
}

/// Applies one operation to the implementation and to the dictionary; with `ret`, compares
/// everything the operation returned.
pub fn apply<K: KT, V: VT>(s: &mut Sut<K, V>, m: &mut Model<V>, o: i64, step: u64, ret: bool) -> Result<(), String> {
    let kind = o >> SHIFT;
    let i = op_key(o);
    let k = || K::mk(i);
    let v1 = V::mk(2 * step + 2);
    let v2 = V::mk(2 * step + 3);
    let had = m.get(&i).cloned();
    macro_rules! same {
        ($got:expr, $want:expr, $what:expr) => {{
            let g = $got;
            if ret {
                let w = $want;
                ck(g == w, || format!("step {step}: {} of key {:?} returned {}, expected {}", $what, k(), dbg(&g), dbg(&w)))?
            }
        }};
    }
    match kind {
        INS => {
            let g = match s {
                Sut::M(x) => x.insert(k(), v1.clone()),
                Sut::R(x) => x.insert(k(), v1.clone()).0,
            };
            same!(g, had, "insert");
            m.insert(i, v1);
        }
        INSW => {
            match s {
                Sut::M(x) => {
                    same!(x.insert(k(), v1.clone()), had, "insert");
                    let r = x.get_mut(&k());
                    same!(r.as_deref().cloned(), Some(v1.clone()), "get_mut");
                    if let Some(r) = r {
                        *r = v2.clone();
                    }
                }
                Sut::R(x) => {
                    let (old, r) = x.insert(k(), v1.clone());
                    same!(old, had, "insert");
                    same!(r.clone(), v1.clone(), "insert's reference");
                    *r = v2.clone();
                }
            }
            m.insert(i, v2);
        }
        REM => {
            let g = match s {
                Sut::M(x) => x.remove(&k()),
                Sut::R(x) => x.delete(&k()).map(|e| e.1),
            };
            same!(g, had, "remove");
            m.remove(&i);
        }
        REME => {
            let g = match s {
                Sut::M(x) => x.remove_entry(&k()),
                Sut::R(x) => x.delete(&k()),
            };
            same!(g, had.map(|v| (k(), v)), "remove_entry");
            m.remove(&i);
        }
        GETMUT | GETMUT_NOP | GETMUT_ROOT => {
            let w = |r: &mut V| {
                let old = r.clone();
                if kind != GETMUT_NOP {
                    *r = v1.clone();
                }
                old
            };
            let g = match s {
                Sut::M(x) => x.get_mut(&k()).map(w),
                Sut::R(x) => x.modify(&k(), w),
            };
            same!(g, had.clone(), "mutable access");
            if had.is_some() && kind != GETMUT_NOP {
                m.insert(i, v1);
            }
            if kind == GETMUT_ROOT {
                let _ = s.tree().root_hash();
            }
        }
        E_INSW | E_INS => {
            let r = s.entry(k()).or_insert(v1.clone());
            same!(r.clone(), had.clone().unwrap_or(v1.clone()), "or_insert");
            m.entry(i).or_insert(v1);
            if kind == E_INSW {
                *r = v2.clone();
                m.insert(i, v2);
            }
        }
        E_ANDMOD => {
            let mut calls = 0;
            let r = s
                .entry(k())
                .and_modify(|x| {
                    calls += 1;
                    *x = v1.clone()
                })
                .or_insert(v2.clone());
            same!(r.clone(), if had.is_some() { v1.clone() } else { v2.clone() }, "and_modify.or_insert");
            same!(calls, had.is_some() as i32, "calls of and_modify's function");
            m.insert(i, if had.is_some() { v1 } else { v2 });
        }
        E_MODONLY => {
            let e = s.entry(k()).and_modify(|x| *x = v1.clone());
            same!(e.key().clone(), k(), "key");
            drop(e);
            if had.is_some() {
                m.insert(i, v1);
            }
        }
        E_DEFW | E_DEF => {
            let r = s.entry(k()).or_default();
            same!(r.clone(), had.clone().unwrap_or_default(), "or_default");
            m.entry(i).or_default();
            if kind == E_DEFW {
                *r = v1.clone();
                m.insert(i, v1);
            }
        }
        E_WITH => {
            let mut calls = 0;
            let r = s.entry(k()).or_insert_with(|| {
                calls += 1;
                v1.clone()
            });
            same!(r.clone(), had.clone().unwrap_or(v1.clone()), "or_insert_with");
            same!(calls, had.is_none() as i32, "calls of or_insert_with's function");
            m.entry(i).or_insert(v1);
        }
        E_WITHKEY => {
            let mut seen = Vec::new();
            let r = s.entry(k()).or_insert_with_key(|key| {
                seen.push(key.clone());
                v1.clone()
            });
            *r = v2.clone();
            same!(seen, if had.is_none() { vec![k()] } else { vec![] }, "keys given to or_insert_with_key's function");
            m.insert(i, v2);
        }
        E_OCCMUT => match s.entry(k()) {
            Entry::Occupied(mut e) => {
                same!(true, had.is_some(), "entry (occupied)");
                same!(e.key().clone(), k(), "key");
                same!(Some(e.get().clone()), had, "get");
                *e.get_mut() = v1.clone();
                same!(e.get().clone(), v1.clone(), "get after a write");
                *e.get_mut() = v2.clone();
                drop(e);
                m.insert(i, v2);
            }
            Entry::Vacant(e) => {
                same!(false, had.is_some(), "entry (vacant)");
                same!(e.key().clone(), k(), "key");
                same!(e.into_key(), k(), "into_key");
            }
        },
        E_INTOMUT => match s.entry(k()) {
            Entry::Occupied(e) => {
                same!(true, had.is_some(), "entry (occupied)");
                let r = e.into_mut();
                same!(Some(r.clone()), had, "into_mut");
                *r = v1.clone();
                m.insert(i, v1);
            }
            Entry::Vacant(e) => {
                same!(false, had.is_some(), "entry (vacant)");
                let r = e.insert(v1.clone());
                same!(r.clone(), v1, "insert's reference");
                *r = v2.clone();
                m.insert(i, v2);
            }
        },
        E_REM | E_REME => match s.entry(k()) {
            Entry::Occupied(mut e) => {
                same!(true, had.is_some(), "entry (occupied)");
                if kind == E_REM {
                    same!(Some(e.remove()), had, "remove");
                } else {
                    *e.get_mut() = v1.clone();
                    same!(e.remove_entry(), (k(), v1), "remove_entry");
                }
                m.remove(&i);
            }
            Entry::Vacant(_) => same!(false, had.is_some(), "entry (vacant)"),
        },
        E_READ => {
            let e = s.entry(k());
            same!(e.key().clone(), k(), "key");
            same!(matches!(e, Entry::Occupied(_)), had.is_some(), "entry");
            if ret {
                let want = match &had {
                    Some(v) => format!("Entry(OccupiedEntry {{ key: {:?}, value: {:?} }})", k(), v),
                    None => format!("Entry(VacantEntry({:?}))", k()),
                };
                same!(format!("{e:?}"), want, "Debug");
            }
        }
        CLEAR => {
            match s {
                Sut::M(x) => x.clear(),
                Sut::R(x) => *x = RbTree::new(),
            }
            m.clear();
        }
        REBUILD => {
            let e = s.entries();
            match s {
                Sut::M(x) => *x = e.into_iter().collect(),
                Sut::R(x) => {
                    let mut y = RbTree::default();
                    for (k, v) in e.into_iter().rev() {
                        y.insert(k, v);
                    }
                    *x = y;
                }
            }
        }
        MOVE => match s {
            // The collection itself changes its place.
            Sut::M(x) => {
                let mut v = vec![Map::new(), std::mem::replace(x, Map::new()), Map::new()];
                v.rotate_left(1);
                v.reserve(100);
                *x = v.swap_remove(0);
            }
            Sut::R(x) => {
                let mut b = Box::new(std::mem::replace(x, RbTree::new()));
                std::mem::swap(x, &mut b);
            }
        },
        ROOTHASH => {
            let _ = s.tree().root_hash();
        }
        WITNESS => {
            let _ = s.tree().witness(&k());
        }
        x => panic!("operation {x}"),
    }
    if ret {
        ck(s.len() == m.len(), || format!("step {step}: len() is {}, expected {}", s.len(), m.len()))?;
    }
    Ok(())
}

/// The indices the checks ask about: the keys and a key in every gap.
pub fn probes<K: KT>(keys: &[i64]) -> Vec<i64> {
    if K::n() <= 64 {
        return (0..K::n()).collect();
    }
    let mut p = Vec::new();
    let mut lo = 0;
    for k in keys {
        if *k > lo {
            p.push(lo + (k - lo) / 2);
        }
        p.push(*k);
        lo = k + 1;
    }
    if lo < K::n() {
        p.push(lo + (K::n() - lo) / 2);
    }
    p
}

pub fn content<K: KT, V: VT>(s: &Sut<K, V>, m: &Model<V>) -> Result<(), String> {
    let want: Vec<(K, V)> = m.iter().map(|(i, v)| (K::mk(*i), v.clone())).collect();
    let t = s.tree();
    ck(s.len() == want.len(), || format!("len() is {}, expected {}", s.len(), want.len()))?;
    ck(t.len() == want.len(), || "as_tree().len()".into())?;
    let e = match s {
        Sut::M(x) => x.is_empty(),
        Sut::R(x) => x.is_empty(),
    };
    ck(e == want.is_empty(), || format!("is_empty() is {e} with {} entries", want.len()))?;
    // Iteration, with the remaining length at every point, and past the end.
    let mut it = match s {
        Sut::M(x) => x.iter(),
        Sut::R(x) => RbTreeIterator::new(x),
    };
    for (n, (k, v)) in want.iter().enumerate() {
        let r = want.len() - n;
        ck(it.size_hint() == (r, Some(r)), || format!("size_hint {:?} with {r} left", it.size_hint()))?;
        let got = it.next();
        ck(got == Some((k, v)), || format!("iteration item {n} is {got:?}, expected {:?}", (k, v)))?;
    }
    ck(it.size_hint() == (0, Some(0)), || "size_hint at the end".into())?;
    ck(it.next().is_none() && it.next().is_none(), || "iterator goes on past the last entry".into())?;
    if want.len() <= 12 {
        adaptors(s, &want)?;
    }
    let mut seen = Vec::new();
    t.for_each(|k, v| seen.push((k.clone(), v.clone())));
    ck(seen == want, || format!("for_each visits {}, expected {}", dbg(&seen), dbg(&want)))?;
    let ids: Vec<i64> = m.keys().copied().collect();
    for i in probes::<K>(&ids) {
        let k = K::mk(i);
        let w = m.get(&i);
        let got = match s {
            Sut::M(x) => x.get(&k),
            Sut::R(x) => x.get(&k),
        };
        ck(got == w, || format!("get({k:?}) is {got:?}, expected {w:?}"))?;
        ck(K::get_b(t, &k) == w, || format!("get({k:?}) by a borrowed key differs"))?;
        ck(t.get_with(|x| k.cmp(x)) == w, || format!("get_with({k:?}) differs"))?;
    }
    if let Sut::M(x) = s {
        let d: BTreeMap<&K, &V> = want.iter().map(|(k, v)| (k, v)).collect();
        if want.len() < 8 {
            ck(format!("{x:?}") == format!("{d:?}"), || format!("Debug prints {x:?}"))?;
        }
        let r: &RbTree<K, V> = x.as_ref();
        ck(std::ptr::eq(r, t), || "as_ref is not as_tree".into())?;
    }
    Ok(())
}

/// The provided methods of iterators, after any number of steps.
fn adaptors<K: KT, V: VT>(s: &Sut<K, V>, want: &[(K, V)]) -> Result<(), String> {
    for n in 0..=want.len() + 1 {
        let it = || {
            let mut it = match s {
                Sut::M(x) => x.iter(),
                Sut::R(x) => RbTreeIterator::new(x),
            };
            for _ in 0..n {
                it.next();
            }
            it
        };
        let rest = || want[n.min(want.len())..].iter().map(|(k, v)| (k, v));
        ck(it().last() == rest().last(), || format!("last() after {n} steps is {:?}", it().last()))?;
        ck(it().count() == rest().count(), || format!("count() after {n} steps is {}", it().count()))?;
        ck(it().eq(rest()), || format!("what follows {n} steps is {:?}", it().collect::<Vec<_>>()))?;
        for x in 0..=want.len() + 1 {
            let (mut a, mut b) = (it(), rest());
            ck(a.nth(x) == b.nth(x), || format!("nth({x}) after {n} steps"))?;
            let left = b.len();
            ck(a.size_hint() == (left, Some(left)), || format!("size_hint after {n} steps and nth({x})"))?;
            ck(a.eq(b), || format!("what follows {n} steps and nth({x})"))?;
            if x > 0 {
                ck(it().step_by(x).eq(rest().step_by(x)), || format!("step_by({x}) after {n} steps"))?;
            }
            ck(it().skip(x).eq(rest().skip(x)), || format!("skip({x}) after {n} steps"))?;
            let (mut a, mut b) = (it(), rest());
            ck(a.by_ref().take(x).eq(b.by_ref().take(x)) && a.eq(b), || format!("take({x}) after {n} steps"))?;
        }
        let (mut a, mut b) = (vec![], vec![]);
        it().for_each(|x| a.push(x));
        rest().for_each(|x| b.push(x));
        ck(a == b, || format!("for_each after {n} steps"))?;
        let a = it().fold(vec![], |mut v, x| { v.push(x); v });
        ck(a == b, || format!("fold after {n} steps"))?;
        ck(it().max_by(|x, y| x.0.cmp(y.0)) == b.last().copied(), || format!("max_by after {n} steps"))?;
        ck(it().min_by(|x, y| x.0.cmp(y.0)) == b.first().copied(), || format!("min_by after {n} steps"))?;
        let (mut a, mut b) = (it(), rest());
        ck(a.find(|x| Some(x.0) == want.last().map(|w| &w.0)) == b.find(|x| Some(x.0) == want.last().map(|w| &w.0)), || "find".into())?;
        ck(it().position(|x| Some(x.0) == want.last().map(|w| &w.0)) == rest().position(|x| Some(x.0) == want.last().map(|w| &w.0)), || "position".into())?;
    }
    Ok(())
}

/// Parameters: kind of iterator, keys of the pairs that are collected. Later pairs replace earlier ones.
pub fn collected(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    fn go<V: VT>(p: &[i64]) -> Result<(), String> {
        let pairs: Vec<(u64, V)> = p[1..].iter().enumerate().map(|(n, k)| (*k as u64, V::mk(n as u64 + 1))).collect();
        let m: Model<V> = pairs.iter().map(|(k, v)| (*k as i64, v.clone())).collect();
        let map: Map<u64, V> = match p[0] % 3 {
            0 => pairs.into_iter().collect(),
            1 => pairs.into_iter().filter(|_| true).collect(),
            _ => {
                let b: Vec<_> = pairs.clone();
                let (x, y) = b.split_at(b.len() / 2);
                x.iter().cloned().chain(y.iter().cloned()).collect()
            }
        };
        let s = Sut::M(map);
        content(&s, &m)?;
        root(&s)
    }
    if p[0] < 3 {
        go::<u32>(p)?
    } else {
        go::<Hid>(p)?
    }
    obs.steps = p.len() as u64 - 1;
    obs.fp = p.iter().fold(3, |a, x| a * 31 + *x as u64);
    Ok(())
}

fn digest_is<K: KT, V: VT>(s: &Sut<K, V>, w: &T, what: impl FnOnce() -> String) -> Result<(), String> {
    let d = spec::digest(w);
    let r = s.tree().root_hash();
    ck(d == r, || format!("{}: the tree's digest {} is not the root hash {}", what(), spec::hex(&d), spec::hex(&r)))
}

/// The root hash is the digest of the full tree, and that shows exactly the entries.
pub fn root<K: KT, V: VT>(s: &Sut<K, V>) -> Result<(), String> {
    let e = s.entries();
    let t = s.tree();
    let rh = match s {
        Sut::M(x) => x.root_hash(),
        Sut::R(x) => x.root_hash(),
    };
    let h = match s {
        Sut::M(x) => x.as_hash_tree(),
        Sut::R(x) => x.as_hash_tree(),
    };
    let full = spec::of(&h);
    let d = spec::digest(&full);
    ck(d == rh, || {
        format!("root_hash() is {}, the digest of the full tree is {} ({})", spec::hex(&rh), spec::hex(&d), dbg(&e))
    })?;
    ck(h.reconstruct() == rh, || "reconstruct() of the full tree is not the root hash".into())?;
    ck(t.root_hash() == rh, || "root_hash() changes between two calls".into())?;
    let fl = spec::flat(&full);
    ck(fl.len() == e.len(), || format!("the full tree has {} nodes for {} entries", fl.len(), e.len()))?;
    for (x, (k, v)) in fl.iter().zip(&e) {
        let want = T::L(k.lb(), Box::new(T::V(v.bytes())));
        ck(**x == want, || format!("the full tree shows {x:?} where the entry is {want:?}"))?;
    }
    Ok(())
}

fn member_one<K: KT, V: VT>(s: &Sut<K, V>, w: &T, k: &K, v: &V) -> Result<(), String> {
    digest_is(s, w, || format!("witness({k:?})"))?;
    let lb = k.lb();
    let want = T::V(v.bytes());
    ck(spec::lookup(w, &lb) == Look::Found(&want), || {
        format!("witness({k:?}): the client's lookup gives {:?}, the value is {v:?}; tree {}", spec::lookup(w, &lb), dbg(w))
    })?;
    ck(spec::labels(w) == vec![&lb[..]], || format!("witness({k:?}) reveals other keys: {}", dbg(w)))?;
    ck(spec::leaves(w) == vec![&v.bytes()[..]], || format!("witness({k:?}) reveals other values: {}", dbg(w)))?;
    Ok(())
}

/// A proof of every entry.
pub fn member<K: KT, V: VT>(s: &Sut<K, V>, sparse: bool) -> Result<(), String> {
    let e = s.entries();
    let step = if sparse { (e.len() / 24).max(1) } else { 1 };
    for (k, v) in e.iter().step_by(step).chain(e.last()) {
        let ws = match s {
            Sut::M(x) => [x.witness(k), K::witness_b(x.as_tree(), k)],
            Sut::R(x) => [x.witness(k), K::witness_b(x, k)],
        };
        for w in ws {
            member_one(s, &spec::of(&w), k, v)?;
        }
    }
    Ok(())
}

fn absent_one<K: KT, V: VT>(s: &Sut<K, V>, w: &T, k: &K, e: &[(K, V)], at: usize) -> Result<(), String> {
    digest_is(s, w, || format!("witness of the absent {k:?}"))?;
    let lb = k.lb();
    ck(spec::lookup(w, &lb) == Look::Absent, || {
        format!("witness of the absent {k:?}: the client's lookup gives {:?}; tree {}", spec::lookup(w, &lb), dbg(w))
    })?;
    let mut near: Vec<Vec<u8>> = Vec::new();
    if at > 0 {
        near.push(e[at - 1].0.lb());
    }
    if at < e.len() {
        near.push(e[at].0.lb());
    }
    ck(spec::labels(w) == near, || format!("witness of the absent {k:?} shows other keys than the neighbours: {}", dbg(w)))?;
    ck(spec::leaves(w).is_empty(), || format!("witness of the absent {k:?} reveals a value: {}", dbg(w)))?;
    if e.is_empty() {
        ck(*w == T::E, || "witness in an empty map".into())?;
    }
    Ok(())
}

/// A proof of absence of keys in every gap.
pub fn absent<K: KT, V: VT>(s: &Sut<K, V>, ids: &[i64], sparse: bool) -> Result<(), String> {
    let e = s.entries();
    let pr = probes::<K>(ids);
    let step = if sparse { (pr.len() / 24).max(1) } else { 1 };
    let mut idx: Vec<usize> = (0..pr.len()).step_by(step).collect();
    if sparse {
        idx.extend([1, pr.len() - 1, pr.len().saturating_sub(2)]);
    }
    for i in idx {
        let Some(i) = pr.get(i) else { continue };
        let k = K::mk(*i);
        let at = match e.binary_search_by(|x| x.0.cmp(&k)) {
            Ok(_) => continue,
            Err(at) => at,
        };
        let ws = match s {
            Sut::M(x) => [x.witness(&k), K::witness_b(x.as_tree(), &k)],
            Sut::R(x) => [x.witness(&k), K::witness_b(x, &k)],
        };
        for w in ws {
            absent_one(s, &spec::of(&w), &k, &e, at)?;
        }
    }
    Ok(())
}

fn range_one<K: KT, V: VT>(s: &Sut<K, V>, w: &T, e: &[(K, V)], a: &K, b: &K, values: bool, pr: &[i64]) -> Result<(), String> {
    let what = || format!("{}_range({a:?}, {b:?})", if values { "value" } else { "key" });
    digest_is(s, w, what)?;
    let lo = e.partition_point(|x| x.0 < *a);
    let hi = e.partition_point(|x| x.0 <= *b);
    // Labels: the keys in the range, and no others but the neighbours that delimit it.
    let mut want: Vec<Vec<u8>> = e[lo..hi].iter().map(|x| x.0.lb()).collect();
    let inside = want.len();
    if lo > 0 && e.get(lo).map(|x| x.0 != *a).unwrap_or(true) {
        want.insert(0, e[lo - 1].0.lb());
    }
    if hi < e.len() && !(hi > 0 && e[hi - 1].0 == *b) {
        want.push(e[hi].0.lb());
    }
    ck(spec::labels(w) == want, || {
        format!("{}: shows {:?}, expected {:?}; tree {}", what(), spec::labels(w), want, dbg(w))
    })?;
    let got: HashMap<&[u8], &T> =
        spec::flat(w).into_iter().filter_map(|x| if let T::L(l, t) = x { Some((&l[..], &**t)) } else { None }).collect();
    for (k, v) in &e[lo..hi] {
        let t = if values { T::V(v.bytes()) } else { T::P(spec::leaf_digest(&v.bytes())) };
        ck(got.get(&k.lb()[..]) == Some(&&t), || format!("{}: {k:?} gives {:?}", what(), spec::lookup(w, &k.lb())))?;
    }
    ck(spec::leaves(w).len() == if values { inside } else { 0 }, || format!("{}: reveals values outside: {}", what(), dbg(w)))?;
    // Nothing in the range can be hidden: every absent key in it is provably absent.
    for i in pr {
        let k = K::mk(*i);
        if k >= *a && k <= *b && e.binary_search_by(|x| x.0.cmp(&k)).is_err() {
            ck(spec::lookup(w, &k.lb()) == Look::Absent, || {
                format!("{}: the absent {k:?} gives {:?}; tree {}", what(), spec::lookup(w, &k.lb()), dbg(w))
            })?;
        }
    }
    Ok(())
}

pub fn ranges<K: KT, V: VT>(s: &Sut<K, V>, ids: &[i64], sparse: bool) -> Result<(), String> {
    let e = s.entries();
    let mut pr = probes::<K>(ids);
    if sparse && pr.len() > 24 {
        let n = pr.len();
        let pick = [0, 1, 2, 3, n / 4, n / 3, n / 2 - 1, n / 2, n / 2 + 1, 2 * n / 3, n - 4, n - 3, n - 2, n - 1];
        let few = [0, n / 2, n - 2];
        let pick = if n > 3000 { &few[..] } else { &pick[..] };
        pr = pick.iter().map(|i| pr[*i]).collect();
    }
    // keys()
    let kt = match s {
        Sut::M(x) => x.witness_keys(),
        Sut::R(x) => x.keys(),
    };
    let kt = spec::of(&kt);
    digest_is(s, &kt, || "the witness of all keys".into())?;
    let fl = spec::flat(&kt);
    ck(fl.len() == e.len(), || "the witness of all keys has another number of nodes".into())?;
    for (x, (k, v)) in fl.iter().zip(&e) {
        let want = T::L(k.lb(), Box::new(T::P(spec::leaf_digest(&v.bytes()))));
        ck(**x == want, || format!("the witness of all keys shows {x:?} for {want:?}"))?;
    }
    for (x, i) in pr.iter().enumerate() {
        for j in &pr[x..] {
            let (a, b) = (K::mk(*i), K::mk(*j));
            match s {
                Sut::M(m) => {
                    let w = spec::of(&m.witness_key_range::<K, K>(&a, &b));
                    range_one(s, &w, &e, &a, &b, false, &pr)?;
                    let w = spec::of(&m.witness_value_range::<K, K>(&a, &b));
                    range_one(s, &w, &e, &a, &b, true, &pr)?;
                }
                Sut::R(r) => {
                    let w = spec::of(&K::key_range_b(r, &a, &b));
                    range_one(s, &w, &e, &a, &b, false, &pr)?;
                    let w = spec::of(&K::value_range_b(r, &a, &b));
                    range_one(s, &w, &e, &a, &b, true, &pr)?;
                }
            }
        }
    }
    Ok(())
}

pub const TOUCHES: i64 = 6;
/// Changes the value of a present key in one of the ways that hand out a mutable reference.
fn touch<V: VT>(s: &mut Sut<u64, V>, how: i64, k: u64, v: V) {
    match (how, s) {
        (0, Sut::M(x)) => *x.get_mut(&k).unwrap() = v,
        (0, Sut::R(x)) => x.modify(&k, |r| *r = v).unwrap(),
        (1, Sut::R(x)) => *x.insert(k, V::mk(1)).1 = v,
        (1 | 2, x) => *x.entry(k).or_insert(V::mk(2)) = v,
        (3, x) => drop(x.entry(k).and_modify(|r| *r = v)),
        (4, x) => match x.entry(k) {
            Entry::Occupied(mut e) => *e.get_mut() = v,
            Entry::Vacant(e) => drop(e.insert(v)),
        },
        (_, x) => match x.entry(k) {
            Entry::Occupied(e) => *e.into_mut() = v,
            // For a missing key: the reference to what was inserted.
            Entry::Vacant(e) => *e.insert(V::mk(3)) = v,
        },
    }
}

/// Parameters: 0 Map or 1 RbTree, checks, insertion pattern, n, the way of the change. One or two
/// values are changed, nothing is read, then a witness is made.
pub fn dirty(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let (which, mask, pat, n, how) = (p[0], p[1], p[2], p[3], p[4]);
    let key = |i: i64| 1000 + i as u64 * 4;
    let mut fresh = 100;
    let ids: Vec<i64> = (0..n).map(|i| key(i) as i64).collect();
    let pr = probes::<u64>(&ids);
    let mut reads: Vec<(u64, u64, i64)> = vec![];
    if mask & (MEMBER | ABSENT) != 0 {
        reads.extend(pr.iter().filter(|i| ids.contains(i) == (mask & MEMBER != 0)).map(|i| (*i as u64, 0, 0)));
    }
    if mask & RANGE != 0 {
        for (x, i) in pr.iter().enumerate() {
            reads.extend(pr[x..].iter().flat_map(|j| [(*i as u64, *j as u64, 1), (*i as u64, *j as u64, 2)]));
        }
        reads.push((0, 0, 3));
    }
    let mut s: Sut<u64, u32> = Sut::new(which);
    for i in pattern(pat, n) {
        match &mut s {
            Sut::M(x) => drop(x.insert(key(i), 0)),
            Sut::R(x) => drop(x.insert(key(i), 0)),
        }
    }
    for i in 0..n {
        for j in 0..=n {
            for (a, b, kind) in &reads {
                fresh += 2;
                touch(&mut s, how, key(i), fresh);
                if j < n {
                    touch(&mut s, (how + i + j) % TOUCHES, key(j), fresh + 1);
                }
                obs.steps += 2;
                let what = |e: String| format!("{n} keys, after a change at {} and one at {} without a read: {e}", key(i), key(j));
                let t = s.tree();
                let w = match (kind, &s) {
                    (0, Sut::M(x)) => spec::of(&x.witness(a)),
                    (1, Sut::M(x)) => spec::of(&x.witness_key_range::<u64, u64>(a, b)),
                    (2, Sut::M(x)) => spec::of(&x.witness_value_range::<u64, u64>(a, b)),
                    (3, Sut::M(x)) => spec::of(&x.witness_keys()),
                    (0, _) => spec::of(&t.witness(a)),
                    (1, _) => spec::of(&t.key_range(a, b)),
                    (2, _) => spec::of(&t.value_range(a, b)),
                    _ => spec::of(&t.keys()),
                };
                let e = s.entries();
                match kind {
                    0 => match e.binary_search_by(|x| x.0.cmp(a)) {
                        Ok(at) => member_one(&s, &w, a, &e[at].1).map_err(what)?,
                        Err(at) => absent_one(&s, &w, a, &e, at).map_err(what)?,
                    },
                    3 => digest_is(&s, &w, || "the witness of all keys".into()).map_err(what)?,
                    _ => range_one(&s, &w, &e, a, b, *kind == 2, &pr).map_err(what)?,
                }
                // The root hash the client has is that of the new value.
                let d = spec::digest(&spec::of(&s.tree().as_hash_tree()));
                ck(spec::digest(&w) == d, || "the witness verifies against an old root hash".into()).map_err(what)?;
            }
        }
    }
    obs.trivial = reads.is_empty();
    obs.fp = p.iter().fold(5, |a, x| a * 1009 + *x as u64);
    Ok(())
}

pub fn log2(n: usize) -> usize {
    (usize::BITS - 1 - n.leading_zeros()) as usize
}

/// Forks above any key, and the size of proofs, are logarithmic.
pub fn height<K: KT, V: VT>(s: &Sut<K, V>, sparse: bool, ids: &[i64]) -> Result<(), String> {
    let t = s.tree();
    let full = spec::of(&t.as_hash_tree());
    let n = s.len();
    let bound = if n == 0 { 0 } else { (3 * log2(n + 1)).saturating_sub(2) };
    let d = spec::depth(&full);
    ck(d <= bound, || format!("{n} entries: a key lies below {d} forks, the bound is {bound}"))?;
    let pr = probes::<K>(ids);
    let step = if sparse { (pr.len() / 64).max(1) } else { 1 };
    for i in pr.iter().step_by(step) {
        let k = K::mk(*i);
        let w = spec::of(&t.witness(&k));
        let c = spec::nodes(&w);
        let wb = if ids.binary_search(i).is_ok() { 2 * bound + 2 } else { 4 * bound + 4 };
        ck(c <= wb, || format!("{n} entries: the witness of {k:?} has {c} nodes, the bound is {wb}"))?;
    }
    Ok(())
}

fn finish<K: KT, V: VT>(s: &Sut<K, V>, m: &Model<V>, mask: i64, obs: &mut Obs) -> Result<(), String> {
    let ids: Vec<i64> = m.keys().copied().collect();
    let sp = mask & SPARSE != 0;
    if mask & CONTENT != 0 {
        content(s, m)?;
    }
    if mask & ROOT != 0 {
        root(s)?;
    }
    if mask & MEMBER != 0 {
        member(s, sp)?;
    }
    if mask & ABSENT != 0 {
        absent(s, &ids, sp)?;
    }
    if mask & RANGE != 0 {
        ranges(s, &ids, sp)?;
    }
    if mask & HEIGHT != 0 {
        height(s, sp, &ids)?;
    }
    let mut fp = Fp::new();
    let mut sh = Vec::new();
    spec::shape(&spec::of(&s.tree().as_hash_tree()), &mut sh);
    fp.add(&sh);
    if mask != 0 {
        for k in &ids {
            fp.num(*k as u64);
        }
    }
    obs.fp = fp.0;
    obs.extra = ids;
    obs.text = format!("-> {} entries, shape {}", m.len(), String::from_utf8_lossy(&sh).chars().take(80).collect::<String>());
    Ok(())
}

/// The dictionary can only serve as the oracle's list of keys while the two agree: a disagreement
/// is a violation of the dictionary property and only reported there.
fn resync<K: KT, V: VT>(s: &Sut<K, V>, m: &mut Model<V>, mask: i64) {
    if mask & CONTENT != 0 {
        return;
    }
    let by: HashMap<Vec<u8>, i64> = m.keys().map(|i| (K::mk(*i).lb(), *i)).collect();
    let e = s.entries();
    let mut n: Model<V> = Model::new();
    for (k, v) in e {
        if let Some(i) = by.get(&k.lb()) {
            n.insert(*i, v);
        }
    }
    *m = n;
}

fn hist_t<K: KT, V: VT>(which: i64, mask: i64, ops: &[i64], obs: &mut Obs) -> Result<(), String> {
    let mut s: Sut<K, V> = Sut::new(which);
    let mut m = Model::new();
    for (n, o) in ops.iter().enumerate() {
        apply(&mut s, &mut m, *o, n as u64, mask & CONTENT != 0)?;
    }
    obs.steps = ops.len() as u64;
    obs.trivial = ops.is_empty();
    resync(&s, &mut m, mask);
    finish(&s, &m, mask, obs)
}

/// Parameters: key kind * 2 + (0 Map, 1 RbTree), checks, operations...
pub fn hist(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    match p[0] / 2 {
        0 => hist_t::<u64, u32>(p[0] % 2, p[1], &p[2..], obs),
        2 => hist_t::<u64, Hid>(p[0] % 2, p[1], &p[2..], obs),
        _ => hist_t::<String, Vec<u8>>(p[0] % 2, p[1], &p[2..], obs),
    }
}

pub const PATTERNS: i64 = 8;
/// The order in which pattern `pat` inserts `0..n`.
pub fn pattern(pat: i64, n: i64) -> Vec<i64> {
    match pat {
        0 => (0..n).collect(),
        1 => (0..n).rev().collect(),
        2 => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(), // outside in
        3 => (0..n).map(|i| if i % 2 == 0 { n / 2 + i / 2 } else { n / 2 - 1 - i / 2 }).filter(|x| (0..n).contains(x)).collect(),
        4 => {
            // bit reversal
            let b = 64 - (n.max(2) as u64 - 1).leading_zeros();
            (0..1i64 << b).map(|i| (i as u64).reverse_bits() as i64 >> (64 - b) & ((1 << b) - 1)).filter(|x| *x < n).collect()
        }
        5 => (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
        6 => {
            let mut v: Vec<i64> = Vec::new();
            // three interleaved ascending runs, the last one first
            for i in 0..n.div_euclid(3) + 1 {
                for r in [2, 0, 1] {
                    let x = r * (n / 3 + 1) + i;
                    if i < n / 3 + 1 && x < n {
                        v.push(x);
                    }
                }
            }
            v
        }
        _ => {
            // multiplication by a unit modulo the next power of two
            let m = (n.max(2) as u64).next_power_of_two();
            (0..m).map(|i| (i * 5 + 3) % m).map(|x| x as i64).filter(|x| *x < n).collect()
        }
    }
}

fn family_t<K: KT, V: VT>(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let (which, mask, pat, n, del, churn) = (p[0] % 2, p[1], p[2], p[3], p[4], p[5]);
    let key = |i: i64| 1000 + i * 4;
    let mut s: Sut<K, V> = Sut::new(which);
    let mut m = Model::new();
    let ret = mask & CONTENT != 0;
    let mut step = 0;
    let mut go = |s: &mut Sut<K, V>, m: &mut Model<V>, o: i64| {
        step += 1;
        apply(s, m, o, step, ret)
    };
    for i in pattern(pat, n) {
        go(&mut s, &mut m, op(INS, key(i)))?;
    }
    finish(&s, &m, mask, obs)?;
    // Churn: a window sliding over the keys, in one of four directions.
    if churn > 0 {
        // Ranges of big maps are expensive.
        let every = if mask & RANGE != 0 && n > 40 { n / 2 + 1 } else { 16 };
        for i in 0..4 * n {
            let (ins, rem) = match churn {
                1 => (key(n + i), key(i)),
                2 => (key(-1 - i) + 8 * n, key(n - 1 - i)),
                3 => (key(n / 2) + (i % 3) + 1, key((i * 7) % n.max(1))),
                _ => (key((i * 5) % n.max(1)), key((i * 3) % n.max(1))),
            };
            if ins >= 0 && churn != 4 {
                go(&mut s, &mut m, op(INS, ins))?;
            }
            if rem >= 0 {
                go(&mut s, &mut m, op(REM, rem))?;
            }
            if churn == 4 {
                go(&mut s, &mut m, op(INS, ins))?;
            }
            if i % every == 0 || i == 4 * n - 1 {
                finish(&s, &m, mask, obs)?;
            }
        }
    }
    // Remove everything, in order `del` of the ranks.
    let left: Vec<i64> = m.keys().copied().collect();
    let order = pattern(del, left.len() as i64);
    let every = if n <= 40 { 1 } else { (if n > 20000 { n / 2 - 1 } else { n / 8 }).max(1) as usize };
    for (c, i) in order.iter().enumerate() {
        go(&mut s, &mut m, op(REM, left[*i as usize]))?;
        if c % every == 0 || c + 3 > order.len() {
            finish(&s, &m, mask, obs)?;
        }
    }
    obs.steps = step;
    obs.trivial = n == 0;
    let mut fp = Fp::new();
    for x in p {
        fp.num(*x as u64);
    }
    obs.fp = fp.0;
    obs.text = format!("({step} operations)");
    Ok(())
}

/// Parameters: 0 Map or 1 RbTree, checks, n, two operations, repetitions: the operations are
/// repeated in turn on a small map, with checks around powers of two.
pub fn again(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let (which, mask, n, a, b, reps) = (p[0], p[1], p[2], p[3], p[4], p[5]);
    let mut s: Sut<u64, u32> = Sut::new(which);
    let mut m = Model::new();
    let ret = mask & CONTENT != 0;
    for i in 0..n {
        apply(&mut s, &mut m, op(INS, 8 + 8 * i), i as u64, ret)?;
    }
    for i in 1..=reps {
        apply(&mut s, &mut m, a, 2 * i as u64, ret)?;
        if b >= 0 {
            apply(&mut s, &mut m, b, 2 * i as u64 + 1, ret)?;
        }
        if i >= 15 && [i - 1, i, i + 1].iter().any(|x| (*x as u64).is_power_of_two()) || i == reps {
            resync(&s, &mut m, mask);
            finish(&s, &m, mask, obs)?;
        }
    }
    obs.steps = reps as u64 * (1 + (b >= 0) as u64);
    let mut fp = Fp::new();
    p.iter().for_each(|x| fp.num(*x as u64));
    obs.fp = fp.0;
    Ok(())
}

pub const WAYS: i64 = 8;
/// Parameters: checks, insertion pattern, n, way of making the map at once, deletion pattern.
pub fn bulk(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    use serde_cbor::Value;
    let (mask, pat, n, way, del) = (p[0], p[1], p[2], p[3], p[4]);
    let big = if mask & RANGE != 0 { 16 } else { 64 };
    let mask = if n > big { mask | SPARSE } else { mask };
    let key = |i: i64| 1000 + i * 4;
    let mut list: Vec<(u64, u32)> = pattern(pat, n).iter().map(|i| (key(*i) as u64, *i as u32 * 2 + 2)).collect();
    let mut m: Model<u32> = list.iter().map(|(k, v)| (*k as i64, *v)).collect();
    let err = |e: String| format!("making a map of {n} entries: {e}");
    let made: Map<u64, u32> = match way {
        0 => list.into_iter().collect(),
        1 => {
            // The first and the last entries once more, with another value.
            for i in [0, n / 2, n - 1] {
                list.push((key(i) as u64, 7));
                m.insert(key(i), 7);
            }
            list.into_iter().collect()
        }
        2 => serde_cbor::from_slice(&serde_cbor::to_vec(&list.iter().map(|(k, v)| (Value::Integer(*k as i128), Value::Integer(*v as i128))).collect::<BTreeMap<_, _>>()).unwrap())
            .map_err(|e| err(e.to_string()))?,
        3 => candid::decode_one(&candid::encode_one(&list).unwrap()).map_err(|e| err(e.to_string()))?,
        4 => {
            // A map of unknown length.
            let mut b = vec![0xbf];
            for (k, v) in &list {
                b.extend(serde_cbor::to_vec(k).unwrap());
                b.extend(serde_cbor::to_vec(v).unwrap());
            }
            b.push(0xff);
            serde_cbor::from_slice(&b).map_err(|e| err(e.to_string()))?
        }
        5 => {
            let one: Map<u64, u32> = list.into_iter().collect();
            serde_cbor::from_slice(&serde_cbor::to_vec(&one).map_err(|e| err(e.to_string()))?).map_err(|e| err(e.to_string()))?
        }
        6 => {
            let one: Map<u64, u32> = list.into_iter().filter(|_| true).collect();
            candid::decode_one(&candid::encode_one(&one).map_err(|e| err(e.to_string()))?).map_err(|e| err(e.to_string()))?
        }
        _ => {
            // As pairs that each occur twice, one after the other.
            list.iter().flat_map(|(k, v)| [(*k, 1), (*k, *v)]).collect()
        }
    };
    let mut s = Sut::M(made);
    let ret = mask & CONTENT != 0;
    let mut step = 2 * n as u64 + 5;
    resync(&s, &mut m, mask);
    finish(&s, &m, mask, obs)?;
    // Then changed: entries in gaps, replacements, removal of everything.
    let every = match n {
        _ if n > big && mask & RANGE != 0 => n,
        ..=40 => 2,
        _ => n / 4,
    };
    let mut go = |s: &mut Sut<u64, u32>, m: &mut Model<u32>, o: i64| {
        step += 1;
        apply(s, m, o, step, ret)
    };
    for i in 0..n {
        if i % 3 == 0 {
            go(&mut s, &mut m, op(INS, key((i * 7 + 3) % n) + 1))?;
        }
        go(&mut s, &mut m, op(if i % 2 == 0 { GETMUT } else { INS }, key((i * 5) % n)))?;
        if i % every == 0 {
            finish(&s, &m, mask, obs)?;
        }
    }
    let left: Vec<i64> = m.keys().copied().collect();
    for (c, i) in pattern(del, left.len() as i64).iter().enumerate() {
        go(&mut s, &mut m, op(REM, left[*i as usize]))?;
        if c as i64 % every == 0 {
            finish(&s, &m, mask, obs)?;
        }
    }
    obs.steps = step;
    let mut fp = Fp::new();
    p.iter().for_each(|x| fp.num(*x as u64));
    obs.fp = fp.0;
    obs.text = format!("({step} operations)");
    Ok(())
}

/// Parameters: key kind * 2 + which, checks, insertion pattern, n, deletion pattern, churn.
pub fn family(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    family_t::<u64, u32>(p, obs)
}

/// Just an insertion or a removal (kept apart from `apply`: it is compiled for every key type).
fn plain<K: KT, V: VT>(s: &mut Sut<K, V>, m: &mut Model<V>, i: i64, v: Option<V>, ret: bool) -> Result<(), String> {
    let k = K::mk(i);
    let got = match (&mut *s, &v) {
        (Sut::M(x), Some(v)) => x.insert(k, v.clone()),
        (Sut::R(x), Some(v)) => x.insert(k, v.clone()).0,
        (Sut::M(x), None) => x.remove(&k),
        (Sut::R(x), None) => x.delete(&k).map(|e| e.1),
    };
    let had = match v {
        Some(v) => m.insert(i, v),
        None => m.remove(&i),
    };
    ck(!ret || got == had, || format!("the previous value of {:?} is {had:?}, got {got:?}", K::mk(i)))
}

fn perms_t<K: KT, V: VT>(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    // p[2..]: indices inserted in this order; then each single key is removed from a fresh copy.
    let (which, mask, keys) = (p[0] % 2, p[1], &p[2..]);
    let ret = mask & CONTENT != 0;
    let mut fp = Fp::new();
    for del in std::iter::once(None).chain(keys.iter().map(Some)) {
        let mut s: Sut<K, V> = Sut::new(which);
        let mut m: Model<V> = Model::new();
        for (n, k) in keys.iter().enumerate() {
            plain(&mut s, &mut m, *k, Some(V::mk(2 * n as u64 + 2)), ret)?;
        }
        if let Some(d) = del {
            plain(&mut s, &mut m, *d, None, ret)?;
        }
        resync(&s, &mut m, mask);
        finish(&s, &m, mask, obs)?;
        fp.num(obs.fp);
        obs.steps += keys.len() as u64 + 1;
    }
    fp.num(p[0] as u64);
    obs.fp = fp.0;
    obs.trivial = keys.is_empty();
    Ok(())
}

/// Parameters: key kind * 2 + which, checks, keys in insertion order. Checks the state and every
/// state one removal away.
pub fn perms(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    dispatch!(p[0] / 2, perms_t(p, obs))
}

pub fn kk_n(kk: i64) -> i64 {
    fn n<K: KT, V: VT>() -> i64 {
        K::n()
    }
    dispatch!(kk, n())
}

#[derive(Clone)]
pub struct St {
    pub hist: Vec<i64>,
    pub keys: Vec<i64>,
    pub shape: u64,
}

pub fn gaps(keys: &[i64]) -> Vec<i64> {
    let mut v = Vec::new();
    let mut lo = 0;
    for k in keys {
        if *k > lo {
            v.push(lo + (k - lo) / 2);
        }
        lo = k + 1;
    }
    v.push(lo + ((1i64 << 48) - lo) / 2);
    v
}

/// Every reachable shape of the search tree with at most `nmax` keys, by breadth-first search over
/// insertions into every gap and removals of every key, on the real code. With `edges`, a shape is
/// kept once per (shape before, operation) that leads to it, so that states that look alike but
/// were reached differently are all continued.
pub fn shapes(ctx: &Ctx, which: i64, mask: i64, nmax: usize, edges: bool) -> Vec<St> {
    let si = ctx.scen("hist");
    let Some(o) = ctx.run(si, &[which, mask]) else { return vec![] };
    let start = St { hist: vec![], keys: vec![], shape: o.fp };
    let mut seen: std::collections::HashSet<(u64, i64, i64, u64)> = Default::default();
    let mut distinct: std::collections::HashSet<u64> = Default::default();
    distinct.insert(start.shape);
    let mut all = vec![start.clone()];
    let mut frontier = vec![start];
    let mut trans = 0u64;
    while !frontier.is_empty() && !ctx.stopped() {
        let out: Mutex<Vec<(usize, usize, St, (u64, i64, i64, u64))>> = Mutex::new(Vec::new());
        ctx.par(frontier.len() as u64, |fi| {
            let st = &frontier[fi as usize];
            let mut ops: Vec<(i64, i64, i64)> = Vec::new();
            if st.keys.len() < nmax {
                ops.extend(gaps(&st.keys).iter().enumerate().map(|(r, k)| (op(INS, *k), INS, r as i64)));
            }
            ops.extend(st.keys.iter().enumerate().map(|(r, k)| (op(REM, *k), REM, r as i64)));
            for (oi, (o, kind, rank)) in ops.iter().enumerate() {
                let mut p = vec![which, 0];
                p.extend(&st.hist);
                p.push(*o);
                if let Some(obs) = ctx.run(si, &p) {
                    let st2 = St { hist: p[2..].to_vec(), keys: obs.extra, shape: obs.fp };
                    let key = if edges { (st.shape, *kind, *rank, obs.fp) } else { (0, 0, 0, obs.fp) };
                    out.lock().unwrap().push((fi as usize, oi, st2, key));
                }
            }
        });
        let mut v = out.into_inner().unwrap();
        v.sort_by_key(|x| (x.0, x.1));
        trans += v.len() as u64;
        frontier = Vec::new();
        for (_, _, st, key) in v {
            // A shape fingerprint does not tell the number of keys of an empty and a one-key tree
            // apart from anything else, the structure does.
            if seen.insert(key) {
                distinct.insert(st.shape);
                all.push(st.clone());
                frontier.push(st);
            }
        }
        if all.len() > 400_000 {
            ctx.note("shape search stopped at 400000 states");
            break;
        }
    }
    ctx.add_states(distinct.len() as u64);
    ctx.add_transitions(trans);
    ctx.note(format!(
        "shapes: {} reachable tree shapes with at most {nmax} keys ({} representatives, {trans} transitions)",
        distinct.len(),
        all.len()
    ));
    // The checks themselves, on every representative.
    if mask != 0 {
        ctx.par_items(&all, |st| {
            let mut p = vec![which, mask];
            p.extend(&st.hist);
            ctx.run(si, &p);
        });
    }
    all
}

pub fn tolerant<R>(f: impl FnOnce() -> R) -> Option<R> {
    guarded(f).ok()
}
