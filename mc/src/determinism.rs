//! The same history of changes gives the same hashes and byte-identical witnesses: whatever reads
//! happen in between, in any thread, process and memory layout; reading twice gives one answer.
use crate::engine::{Ctx, Fp, Obs};
use crate::group::{build, get, get_mut, select_plain, In, LAYOUTS};
use crate::hist::{self, ck, op, op_key, Model};
use candid::Encode;
use certified_vars::rbtree::entry::Entry;
use certified_vars::rbtree::RbTree;
use std::borrow::{Borrow, Cow};
use certified_vars::label::{Label, Prefix};
use certified_vars::{AsHashTree, Group, HashTree, Map, Paged, Seq};

/// A key of 12 hexadecimal digits, with prefixes.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, serde::Serialize, serde::Deserialize, candid::CandidType)]
struct K(String);
impl Label for K {
    fn as_label(&self) -> Cow<'_, [u8]> {
        self.0.as_label()
    }
}
impl Borrow<str> for K {
    fn borrow(&self) -> &str {
        &self.0
    }
}
impl Prefix<str> for K {
    fn is_prefix(&self, p: &str) -> bool {
        self.0.is_prefix(p)
    }
}
impl hist::KT for K {
    fn mk(i: i64) -> K {
        K(format!("{i:012x}"))
    }
    fn lb(&self) -> Vec<u8> {
        self.0.as_bytes().to_vec()
    }
    fn n() -> i64 {
        1 << 48
    }
}
impl K {
    fn p(&self) -> &str {
        &self.0[..1]
    }
}
type Sut = hist::Sut<K, u32>;

fn cbor(t: &HashTree<'_>) -> Vec<u8> {
    serde_cbor::to_vec(t).expect("serialize a witness")
}
fn key(i: i64) -> K {
    <K as hist::KT>::mk(i)
}
fn dbg(x: impl std::fmt::Debug) -> Vec<u8> {
    format!("{x:?}").into_bytes()
}

/// What a collection shows to the outside: named byte strings.
pub type Snap = Vec<(String, Vec<u8>)>;

fn same(a: &Snap, b: &Snap, what: impl Fn() -> String) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    for (x, y) in a.iter().zip(b) {
        ck(x == y, || format!("{}: {} is {} after one and {} after the other", what(), x.0, crate::spec::hex(&x.1), crate::spec::hex(&y.1)))?;
    }
    Err(format!("{}: different number of parts", what()))
}

fn snap(s: &Sut, keys: &[i64]) -> Snap {
    let t = s.tree();
    let mut v: Snap = vec![];
    let mut add = |n: String, b: Vec<u8>| v.push((n, b));
    // The order of the parts matters: the first one must not depend on the ones after it.
    for (j, i) in keys.iter().enumerate() {
        let k = key(*i);
        add(format!("the witness of key {k:?}"), cbor(&t.witness(&k)));
        add(format!("the value of key {k:?}"), dbg(t.get(&k)));
        if let Some(h) = keys.get(j + 1) {
            add(format!("the value range from {k:?}"), cbor(&t.value_range(&k, &key(*h))));
        }
        add(format!("the key range from {k:?}"), cbor(&t.key_range(&k, &key(*keys.last().unwrap()))));
        add(format!("the prefix witness of {k:?}"), cbor(&t.keys_with_prefix(k.p())));
    }
    add("the root hash".into(), t.root_hash().to_vec());
    add("the full tree".into(), cbor(&t.as_hash_tree()));
    add("the witness of all keys".into(), cbor(&t.keys()));
    add("the entries".into(), dbg(s.entries()));
    add("the length".into(), vec![s.len() as u8]);
    v
}

/// Read-only operations of maps and trees; `None` when this one would not be read-only now.
pub const READS: i64 = 36;
fn read(s: &mut Sut, i: i64, r: i64) -> Option<Vec<u8>> {
    let k = key(i);
    let present = s.tree().get(&k).is_some();
    let len = s.len();
    Some(match r {
        0 => s.tree().root_hash().to_vec(),
        1 => dbg(s.tree().get(&k)),
        2 => dbg(s.tree().get_with(|x| k.cmp(x))),
        3 => cbor(&s.tree().witness(&k)),
        4 => cbor(&s.tree().keys()),
        5 => cbor(&s.tree().key_range(&k, &key((1 << 48) - 1))),
        6 => cbor(&s.tree().key_range(&key(0), &k)),
        7 => cbor(&s.tree().value_range(&k, &k)),
        8 => cbor(&s.tree().value_range(&k, &key((1 << 48) - 1))),
        9 => cbor(&s.tree().keys_with_prefix(&k.0[..])),
        10 => cbor(&s.tree().keys_with_prefix(k.p())),
        11 => cbor(&s.tree().as_hash_tree()),
        12 => dbg(s.entries()),
        13 => {
            let mut n = vec![];
            s.tree().for_each(|k, v| n.push(format!("{k:?}={v}")));
            dbg(n)
        }
        14 => vec![len as u8, s.tree().is_empty() as u8],
        15 => dbg(s.tree().max_entry_with_prefix(k.p())),
        // The function of a nested witness reads the value and another witness of the same tree.
        16 => {
            let t = s.tree();
            let mut inner = vec![];
            let w = cbor(&t.nested_witness(&k, |v| {
                inner = cbor(&t.witness(&k));
                inner.extend(t.root_hash());
                v.as_hash_tree()
            }));
            [w, inner].concat()
        }
        // A comparison that reads the tree.
        17 => {
            let t = s.tree();
            dbg(t.get_with(|x| {
                t.root_hash();
                k.cmp(x)
            }))
        }
        18 => t_reconstruct(&s.tree().as_hash_tree()),
        // Mutable accesses that change nothing.
        19 => match s {
            Sut::M(m) => dbg(m.get_mut(&k).map(|v| *v)),
            Sut::R(t) => dbg(t.modify(&k, |v| *v)),
        },
        20 => match s {
            Sut::M(m) => dbg(m.get_mut(&k).map(|v| {
                let x = *v;
                *v = x;
                x
            })),
            Sut::R(t) => dbg(t.modify(&k, |v| {
                let x = *v;
                *v = x;
                x
            })),
        },
        21 => dbg(s.entry(k).key()),
        22 => match s.entry(k) {
            Entry::Occupied(mut e) => dbg((e.key().clone(), *e.get(), *e.get_mut())),
            Entry::Vacant(e) => dbg(e.into_key()),
        },
        23 if present => dbg(*s.entry(k).or_insert(1 << 31)),
        24 if present => dbg(*s.entry(k).or_insert_with(|| 1 << 31)),
        25 if present => dbg(*s.entry(k).or_default()),
        26 => dbg(s.entry(k).and_modify(|_| ()).key()),
        27 if !present => match s {
            Sut::M(m) => dbg(m.remove(&k)),
            Sut::R(t) => dbg(t.delete(&k)),
        },
        28 if !present => match s {
            Sut::M(m) => dbg(m.remove_entry(&k)),
            Sut::R(t) => dbg(t.delete(&k)),
        },
        29 => match s {
            Sut::R(t) => dbg(t.modify_max_with_prefix(k.p(), |k, v| (k.clone(), *v))),
            Sut::M(m) => dbg(m.as_tree().max_entry_with_prefix("zzz")),
        },
        30 => match s {
            Sut::M(m) => serde_cbor::to_vec(m).expect("serialize"),
            _ => return None,
        },
        31 => match s {
            Sut::M(m) => Encode!(&*m).expect("encode"),
            _ => return None,
        },
        32 => match s {
            Sut::M(m) => dbg(&m),
            _ => return None,
        },
        33 => match s {
            Sut::M(m) => {
                let mut it = m.iter();
                let mut v = vec![it.size_hint().0 as u8];
                v.extend(dbg(it.next()));
                v.push(it.size_hint().0 as u8);
                v.extend(dbg(it.nth(1)));
                v
            }
            _ => return None,
        },
        34 => match s {
            Sut::M(m) => [cbor(&m.witness_keys()), cbor(&m.witness(&k)), cbor(&m.witness_key_range::<K, K>(&k, &k)), cbor(&m.witness_value_range::<K, K>(&k, &k)), cbor(&m.witness_keys_with_prefix(""))].concat(),
            _ => return None,
        },
        35 => match s {
            Sut::R(t) => dbg(t.modify_max_with_prefix("zzz", |k, v| (k.clone(), *v))),
            Sut::M(m) => dbg(m.len()),
        },
        // Not read-only for this key.
        23..=28 => return None,
        x => panic!("read {x}"),
    })
}

fn t_reconstruct(t: &HashTree<'_>) -> Vec<u8> {
    t.reconstruct().to_vec()
}

fn asked(ops: &[i64]) -> Vec<i64> {
    let mut k: Vec<i64> = ops.iter().map(|o| op_key(*o)).collect();
    k.sort();
    k.dedup();
    let g = hist::gaps(&k);
    k.push(g[0]);
    k.push(*g.last().unwrap());
    k.sort();
    k.dedup();
    k
}

fn fresh(which: i64) -> Sut {
    match which {
        0 => Sut::M(Map::new()),
        _ => Sut::R(RbTree::new()),
    }
}

/// Runs the history; before operation `at` (or before every one and at the end if `at` is -1) does
/// read `r` of key `i`.
fn history(which: i64, ops: &[i64], at: i64, i: i64, r: i64) -> Result<(Sut, u64), String> {
    let mut s = fresh(which);
    let mut m: Model<u32> = Model::new();
    let mut n = 0;
    for (j, o) in ops.iter().enumerate() {
        if r >= 0 && (at < 0 || at == j as i64) {
            n += read(&mut s, i, r).is_some() as u64;
        }
        hist::apply(&mut s, &mut m, *o, j as u64, false)?;
    }
    if r >= 0 && (at < 0 || at == ops.len() as i64) {
        n += read(&mut s, i, r).is_some() as u64;
    }
    Ok((s, n))
}

/// Parameters: 0 Map or 1 RbTree, read, its key, where, operations...
pub fn reads(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let ops = &p[4..];
    let keys = asked(ops);
    let (a, _) = history(p[0], ops, -1, 0, -1)?;
    let (b, n) = history(p[0], ops, p[3], p[2], p[1])?;
    obs.trivial = n == 0;
    obs.steps = 2 * ops.len() as u64 + n;
    let a = snap(&a, &keys);
    let mut f = Fp::new();
    f.num(p[1] as u64);
    for x in &a {
        f.add(&x.1);
    }
    obs.fp = f.0;
    same(&a, &snap(&b, &keys), || format!("with and without read {} of key {:?} before operation {}", p[1], key(p[2]), p[3]))
}

/// Two reads, and the first one again. Parameters: 0 Map or 1 RbTree, read, its key, read, its key,
/// operations...
pub fn repeat(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let (mut s, _) = history(p[0], &p[5..], -1, 0, -1)?;
    let a = read(&mut s, p[2], p[1]);
    let b = read(&mut s, p[4], p[3]);
    obs.trivial = a.is_none() || b.is_none();
    obs.steps = p.len() as u64 - 2;
    let mut f = Fp::new();
    f.add(a.as_deref().unwrap_or(&[]));
    f.add(b.as_deref().unwrap_or(&[]));
    obs.fp = f.0;
    let a2 = read(&mut s, p[2], p[1]);
    ck(a == a2, || format!("read {} of key {:?} gives {:?}, then after read {} {:?}", p[1], key(p[2]), a, p[3], a2))?;
    let b2 = read(&mut s, p[4], p[3]);
    ck(b == b2, || format!("read {} of key {:?} gives {:?}, then after read {} {:?}", p[3], key(p[4]), b, p[1], b2))
}

/// The history once more in the same thread at other addresses, and in a new thread.
/// Parameters: 0 Map or 1 RbTree, operations...
pub fn again(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let ops = &p[1..];
    let keys = asked(ops);
    let a = snap(&history(p[0], ops, -1, 0, -1)?.0, &keys);
    obs.steps = 3 * ops.len() as u64;
    let mut f = Fp::new();
    for x in &a {
        f.add(&x.1);
    }
    obs.fp = f.0;
    // Other addresses: blocks of the sizes of nodes stay allocated in between.
    let mut junk: Vec<Vec<u8>> = vec![];
    let mut s = fresh(p[0]);
    let mut m: Model<u32> = Model::new();
    for (j, o) in ops.iter().enumerate() {
        junk.push(vec![0; 40 + 24 * (j % 5)]);
        hist::apply(&mut s, &mut m, *o, j as u64, false)?;
        if j % 3 == 2 {
            junk.swap_remove(j / 2 % junk.len());
        }
    }
    same(&a, &snap(&s, &keys), || "the same history twice".into())?;
    let q = p.to_vec();
    let b = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || history(q[0], &q[1..], -1, 0, -1).map(|x| snap(&x.0, &asked(&q[1..]))))
        .unwrap()
        .join()
        .map_err(|_| "the thread panicked".to_string())??;
    same(&a, &b, || "the same history in two threads".into())
}

/// Bigger maps. Parameters: 0 Map or 1 RbTree, pattern, size, read, its place, change, its place,
/// where (-1 before every operation, otherwise before the change).
pub fn bigreads(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let n = p[2];
    let at = |j: i64| (j + 1) * ((1 << 48) / (2 * n + 3));
    let mut ops: Vec<i64> = hist::pattern(p[1], n).into_iter().map(|j| op(hist::INS, at(2 * j + 1))).collect();
    ops.push(op(p[5], at(p[6])));
    let when = if p[7] < 0 { -1 } else { ops.len() as i64 - 1 };
    let mut keys: Vec<i64> = [0, 1, p[4], p[6] - 1, p[6], p[6] + 1, n, 2 * n - 1, 2 * n].iter().filter(|j| **j >= 0).map(|j| at(*j)).collect();
    keys.sort();
    keys.dedup();
    let (a, _) = history(p[0], &ops, -1, 0, -1)?;
    let (b, r) = history(p[0], &ops, when, at(p[4]), p[3])?;
    obs.trivial = r == 0;
    obs.steps = 2 * ops.len() as u64 + r;
    let a = snap(&a, &keys);
    let mut f = Fp::new();
    f.num(p[3] as u64);
    for x in &a {
        f.add(&x.1);
    }
    obs.fp = f.0;
    obs.text = format!("{n} keys");
    same(&a, &snap(&b, &keys), || format!("with and without read {} of key {:?}", p[3], key(at(p[4]))))
}

// Groups.

fn gsnap(g: &Group, n: usize) -> Snap {
    let mut v: Snap = vec![];
    // Every selection of leaves in full, with one order of selecting.
    for set in 0..1u32 << n {
        let mut r = g.witness();
        for x in 0..n {
            if set >> x & 1 == 1 {
                r = select_plain(r, x, 0);
            }
        }
        v.push((format!("the witness of leaves {set:b}"), cbor(&r.build())));
    }
    for x in 0..n {
        v.push((format!("the witness of the hash of leaf {x}"), cbor(&select_plain(g.witness(), x, 1).build())));
    }
    v.push(("the root hash".into(), g.root_hash().to_vec()));
    v.push(("the full tree".into(), cbor(&g.as_hash_tree())));
    v
}

fn leaf_bytes(x: &In) -> Vec<u8> {
    [cbor(&x.as_hash_tree()), x.root_hash().to_vec()].concat()
}

pub const GREADS: i64 = 8;
fn gread(g: &mut Group, x: usize, n: usize, r: i64) -> Vec<u8> {
    match r {
        0 => g.root_hash().to_vec(),
        1 => cbor(&g.as_hash_tree()),
        2 => cbor(&select_plain(g.witness(), x, 0).build()),
        3 => cbor(&select_plain(g.witness(), x, 1).build()),
        4 => leaf_bytes(get(g, x)),
        5 => leaf_bytes(get_mut(g, x)),
        6 => {
            // A selection that is given up.
            drop(select_plain(g.witness(), x, 0));
            vec![]
        }
        _ => cbor(&select_plain(select_plain(g.witness(), x, 0), (x + 1) % n, 1).build()),
    }
}

fn gchange(x: &mut In, c: i64, step: usize) {
    match (x, c) {
        (x, 0) => *x = In::Bytes(vec![step as u8, 9]),
        (In::Bytes(b), _) => b.push(step as u8),
        (In::Map(m), 1) => {
            m.insert(step as u8 + 10, 1);
        }
        (In::Map(m), _) => {
            if let Some(v) = m.get_mut(&3) {
                *v += 1;
            }
        }
        (In::Seq(s), _) => s.append(step as u8),
    }
}

/// Parameters: layout, read, its leaf, where, changes (leaf * 4 + change)...
pub fn greads(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let l = LAYOUTS[p[0] as usize];
    let n = l.len();
    let paths: Vec<Vec<String>> = l.iter().map(|x| x.0.iter().map(|s| s.to_string()).collect()).collect();
    let kinds: Vec<i64> = l.iter().map(|x| x.1).collect();
    let ops = &p[4..];
    let mut out = vec![];
    let mut outputs: Vec<Vec<u8>> = vec![];
    for rd in [false, true] {
        // Built anew: another seed for the hash maps in it.
        let mut g = build(&(0..n).collect::<Vec<_>>(), &paths, &kinds, 0)?;
        for j in 0..=ops.len() {
            if rd && (p[3] < 0 || p[3] == j as i64) {
                let a = gread(&mut g, p[2] as usize % n, n, p[1]);
                let b = gread(&mut g, p[2] as usize % n, n, p[1]);
                ck(a == b, || format!("read {} of leaf {} gives two answers", p[1], p[2]))?;
                outputs.push(a);
            }
            if let Some(o) = ops.get(j) {
                gchange(get_mut(&mut g, (o / 4) as usize % n), o % 4, j);
            }
        }
        out.push(gsnap(&g, n));
    }
    obs.steps = 2 * ops.len() as u64 + outputs.len() as u64;
    let mut f = Fp::new();
    f.num(p[0] as u64);
    for x in &out[0] {
        f.add(&x.1);
    }
    obs.fp = f.0;
    same(&out[0], &out[1], || format!("group with and without read {} of leaf {} before change {}", p[1], p[2], p[3]))
}

/// A group of many leaves built again and again, in several threads: nothing may depend on the
/// seeds of the hash maps inside. Parameters: leaves, directory style, kind.
pub fn gagain(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let n = p[0] as usize;
    let (paths, kinds) = crate::group::wide_paths(n, p[1], p[2]);
    let one = {
        let (paths, kinds) = (paths.clone(), kinds.clone());
        move || -> Result<Snap, String> {
            let g = build(&(0..n).collect::<Vec<_>>(), &paths, &kinds, 0)?;
            let mut v: Snap = vec![("the root hash".into(), g.root_hash().to_vec()), ("the full tree".into(), cbor(&g.as_hash_tree()))];
            for x in 0..n {
                v.push((format!("the witness of leaf {x}"), cbor(&select_plain(g.witness(), x, 0).build())));
                v.push((format!("the witness of leaves {x} and after"), cbor(&select_plain(select_plain(g.witness(), x, 0), (x + 1) % n, 1).build())));
            }
            Ok(v)
        }
    };
    let a = one()?;
    obs.fp = (p[0] * 64 + p[1] * 8 + p[2]) as u64;
    for _ in 0..8 {
        obs.steps += n as u64;
        same(&a, &one()?, || "a group built twice".into())?;
    }
    for _ in 0..2 {
        let o = one.clone();
        let b = std::thread::Builder::new().stack_size(16 << 20).spawn(o).unwrap().join().map_err(|_| "the thread panicked".to_string())??;
        same(&a, &b, || "a group built in two threads".into())?;
    }
    Ok(())
}

// Sequences and paged collections.

fn ssnap(s: &Seq<u32>) -> Snap {
    vec![("the root hash".into(), s.root_hash().to_vec()), ("the tree".into(), cbor(&s.as_hash_tree())), ("the items".into(), dbg(s.as_vec())), ("the encoding".into(), serde_cbor::to_vec(s).unwrap())]
}
fn sread(s: &mut Seq<u32>, r: i64) -> Vec<u8> {
    match r {
        0 => s.root_hash().to_vec(),
        1 => cbor(&s.as_hash_tree()),
        2 => dbg(s.as_vec()),
        3 => dbg(s.iter().collect::<Vec<_>>()),
        4 => serde_cbor::to_vec(s).unwrap(),
        5 => Encode!(&*s).unwrap(),
        6 => dbg(&*s),
        7 => {
            let c = s.clone();
            vec![(c == *s) as u8, (c.root_hash() == s.root_hash()) as u8]
        }
        8 => {
            let mut c = s.clone();
            c.append(99);
            c.root_hash().to_vec()
        }
        9 => dbg(s.as_vec().first()),
        10 => {
            s.reserve(10);
            vec![]
        }
        11 => {
            s.shrink_to_fit();
            vec![]
        }
        12 => {
            s.extend(std::iter::empty::<u32>());
            vec![]
        }
        13 => vec![s.is_empty() as u8, s.len() as u8],
        _ => {
            s.reserve_exact(3);
            dbg(s.as_ref())
        }
    }
}
fn schange(s: &mut Seq<u32>, o: i64, j: u32) {
    match o {
        0 => s.append(j),
        1 => s.extend([j, 0]),
        2 => s.extend(&[j]),
        3 => s.clear(),
        4 => *s = s.as_vec().clone().into(),
        _ => {
            let v: Vec<u32> = std::mem::take(s).into();
            *s = v.into_iter().rev().collect();
        }
    }
}
/// Parameters: read, where, changes...
pub fn sreads(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let ops = &p[2..];
    let mut out = vec![];
    for rd in [false, true] {
        let mut s = Seq::new();
        for j in 0..=ops.len() {
            if rd && (p[1] < 0 || p[1] == j as i64) {
                let a = sread(&mut s, p[0]);
                ck(a == sread(&mut s, p[0]), || format!("read {} gives two answers", p[0]))?;
            }
            if let Some(o) = ops.get(j) {
                schange(&mut s, *o, j as u32);
            }
        }
        out.push(ssnap(&s));
    }
    obs.steps = 2 * ops.len() as u64;
    let mut f = Fp::new();
    f.num(p[0] as u64);
    f.add(&out[0][2].1);
    obs.fp = f.0;
    same(&out[0], &out[1], || format!("sequence with and without read {} before change {}", p[0], p[1]))
}

type Pg = Paged<u8, u32, 2>;
fn psnap(c: &Pg) -> Snap {
    let mut v: Snap = vec![];
    for k in 0..3u8 {
        v.push((format!("the last page of {k}"), dbg(c.get_last_page_number(&k))));
        v.push((format!("the last page witness of {k}"), cbor(&c.witness_last_page_number(&k))));
        for p in 0..4 {
            v.push((format!("page {p} of {k}"), dbg(c.get(&k, p).map(|s| s.as_vec()))));
            v.push((format!("the witness of page {p} of {k}"), cbor(&c.witness(&k, p))));
        }
    }
    v.push(("the root hash".into(), c.root_hash().to_vec()));
    v.push(("the full tree".into(), cbor(&c.as_hash_tree())));
    v
}
fn pread(c: &Pg, k: u8, r: i64) -> Vec<u8> {
    match r {
        0 => c.root_hash().to_vec(),
        1 => cbor(&c.as_hash_tree()),
        2 => dbg(c.get_last_page_number(&k)),
        3 => cbor(&c.witness_last_page_number(&k)),
        4 => dbg(c.get(&k, 0).map(|s| s.as_vec())),
        5 => cbor(&c.witness(&k, 0)),
        6 => cbor(&c.witness(&k, 1)),
        7 => serde_cbor::to_vec(c).unwrap(),
        8 => Encode!(c).unwrap(),
        9 => dbg(c.get(&k, 9).map(|s| s.as_vec())),
        _ => cbor(&c.witness(&k, 1 << 20)),
    }
}
/// Parameters: read, its key, where, keys inserted to...
pub fn preads(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let ops = &p[3..];
    let mut out = vec![];
    for rd in [false, true] {
        let mut c = Pg::new();
        for j in 0..=ops.len() {
            if rd && (p[2] < 0 || p[2] == j as i64) {
                let a = pread(&c, p[1] as u8, p[0]);
                ck(a == pread(&c, p[1] as u8, p[0]), || format!("read {} gives two answers", p[0]))?;
            }
            if let Some(o) = ops.get(j) {
                c.insert(*o as u8, j as u32);
            }
        }
        out.push(psnap(&c));
    }
    obs.steps = 2 * ops.len() as u64;
    let mut f = Fp::new();
    f.num(p[0] as u64);
    f.add(&out[0].last().unwrap().1);
    obs.fp = f.0;
    same(&out[0], &out[1], || format!("paged collection with and without read {} of {} before insertion {}", p[0], p[1], p[2]))
}

/// Nested maps: reads of the outer and inner collections. Parameters: read, outer key, where,
/// changes (outer * 16 + kind * 4 + inner)...
pub fn nreads(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    type M2 = Map<u8, Map<u8, u32>>;
    let ops = &p[3..];
    fn rd(m: &mut M2, o: u8, r: i64) -> Vec<u8> {
        match r {
            0 => m.root_hash().to_vec(),
            1 => cbor(&m.as_hash_tree()),
            2 => m.get(&o).map(|i| i.root_hash().to_vec()).unwrap_or_default(),
            3 => cbor(&m.as_tree().nested_witness(&o, |i| i.witness(&1))),
            4 => m.get_mut(&o).map(|i| i.root_hash().to_vec()).unwrap_or_default(),
            5 => m.get_mut(&o).and_then(|i| i.get_mut(&1).map(|v| vec![*v as u8])).unwrap_or_default(),
            6 => cbor(&m.witness_keys()),
            7 => serde_cbor::to_vec(m).unwrap(),
            8 => cbor(&m.witness_value_range::<u8, u8>(&o, &o)),
            _ => m.get_mut(&o).map(|i| dbg(i.remove(&77))).unwrap_or_default(),
        }
    }
    let mut out = vec![];
    for r in [false, true] {
        let mut m = M2::new();
        for j in 0..=ops.len() {
            if r && (p[2] < 0 || p[2] == j as i64) {
                let a = rd(&mut m, p[1] as u8, p[0]);
                ck(a == rd(&mut m, p[1] as u8, p[0]), || format!("read {} gives two answers", p[0]))?;
            }
            if let Some(x) = ops.get(j) {
                let (o, k, i) = ((x / 16) as u8, x / 4 % 4, (x % 4) as u8);
                match k {
                    0 => {
                        m.entry(o).or_default().insert(i, j as u32);
                    }
                    1 => {
                        if let Some(v) = m.get_mut(&o).and_then(|m| m.get_mut(&i)) {
                            *v += 10;
                        }
                    }
                    2 => {
                        if let Some(m) = m.get_mut(&o) {
                            m.remove(&i);
                        }
                    }
                    _ => {
                        m.remove(&o);
                    }
                }
            }
        }
        let mut v: Snap = vec![];
        for o in 0..3u8 {
            for i in 0..3u8 {
                v.push((format!("the witness of {o}/{i}"), cbor(&m.as_tree().nested_witness(&o, |m| m.witness(&i)))));
            }
        }
        v.push(("the root hash".into(), m.root_hash().to_vec()));
        v.push(("the full tree".into(), cbor(&m.as_hash_tree())));
        out.push(v);
    }
    obs.steps = 2 * ops.len() as u64;
    let mut f = Fp::new();
    f.num(p[0] as u64);
    f.add(&out[0].last().unwrap().1);
    obs.fp = f.0;
    same(&out[0], &out[1], || format!("nested maps with and without read {} of {} before change {}", p[0], p[1], p[2]))
}

// Other processes.

pub const CORPUS: i64 = 24;
/// A digest of everything shown by some collections of every kind.
pub fn corpus(i: i64) -> Result<String, String> {
    let mut all: Snap = vec![];
    for which in 0..2 {
        let n = 1 + 3 * i;
        let mut ops: Vec<i64> = hist::pattern(i % hist::PATTERNS, n).into_iter().map(|k| op(hist::INS, k * 1000)).collect();
        ops.extend(hist::pattern((i + 3) % hist::PATTERNS, n).into_iter().take(n as usize / 2).map(|k| op(hist::REM, k * 1000)));
        ops.extend((0..n).map(|k| op(hist::E_INSW, k * 3000)));
        let s = history(which, &ops, -1, 0, -1)?.0;
        all.extend(snap(&s, &asked(&ops[..ops.len().min(6)])));
    }
    let l = LAYOUTS[i as usize % LAYOUTS.len()];
    let paths: Vec<Vec<String>> = l.iter().map(|x| x.0.iter().map(|s| s.to_string()).collect()).collect();
    let kinds: Vec<i64> = l.iter().map(|x| x.1).collect();
    all.extend(gsnap(&build(&(0..l.len()).collect::<Vec<_>>(), &paths, &kinds, 0)?, l.len()));
    let n = 1 + i as usize % 19;
    for style in 0..7 {
        let (paths, kinds) = crate::group::wide_paths(n, style, 6);
        let g = build(&(0..n).collect::<Vec<_>>(), &paths, &kinds, 0)?;
        all.push(("group".into(), cbor(&g.as_hash_tree())));
        all.push(("group".into(), cbor(&select_plain(g.witness(), n / 2, 0).build())));
    }
    let mut c = Pg::new();
    for j in 0..10 * i {
        c.insert((j * j % 3) as u8, j as u32);
    }
    all.extend(psnap(&c));
    all.extend(ssnap(&(0..i as u32 * 5).collect()));
    let mut b = vec![];
    for (n, x) in all {
        b.extend(n.into_bytes());
        b.extend((x.len() as u64).to_be_bytes());
        b.extend(x);
    }
    Ok(crate::spec::hex(&crate::spec::sha(&[&b])))
}

/// A part of the corpus in this and another process. Parameters: part.
pub fn processes(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    obs.fp = p[0] as u64;
    obs.steps = 2;
    let mine = corpus(p[0])?;
    let out = std::process::Command::new(std::env::current_exe().map_err(|e| e.to_string())?)
        .args(["corpus", &p[0].to_string()])
        .env("LANG", "tr_TR.UTF-8")
        .env("TZ", "Asia/Kathmandu")
        .env("EXTRA", "x".repeat(1000 + 16 * p[0] as usize))
        .current_dir("/")
        .output()
        .map_err(|e| e.to_string())?;
    ck(out.status.success(), || format!("the other process failed: {}", String::from_utf8_lossy(&out.stderr)))?;
    let theirs = String::from_utf8_lossy(&out.stdout).trim().to_string();
    obs.text = mine.clone();
    ck(mine == theirs, || format!("part {}: hashes and witnesses differ between processes: {mine} and {theirs}", p[0]))
}

pub fn c20(ctx: &Ctx) {
    let (ri, pi, ai) = (ctx.scen("dreads"), ctx.scen("drepeat"), ctx.scen("dagain"));
    // Every short history, every read before every operation.
    let nk = |j: i64| (j + 1) * (1 << 40);
    let mut alpha = vec![];
    for k in [hist::INS, hist::REM, hist::GETMUT, hist::E_INSW, hist::E_OCCMUT, hist::E_REM, hist::E_DEFW] {
        for j in 0..3 {
            alpha.push(op(k, nk(j)));
        }
    }
    alpha.push(op(hist::CLEAR, 0));
    let d = ctx.pick(2, 3);
    let mut hs: Vec<Vec<i64>> = vec![vec![]];
    let mut cur = hs.clone();
    for _ in 0..d {
        cur = cur.iter().flat_map(|h| alpha.iter().map(move |o| [&h[..], &[*o]].concat())).collect();
        hs.extend(cur.clone());
    }
    ctx.par_items(&hs, |h| {
        for which in 0..2 {
            let mut p = vec![which];
            p.extend(h);
            ctx.run(ai, &p);
            for r in 0..READS {
                for i in [nk(0), nk(1), nk(3)] {
                    for at in -1..=h.len() as i64 {
                        let mut p = vec![which, r, i, at];
                        p.extend(h);
                        ctx.run(ri, &p);
                    }
                }
            }
        }
    });
    ctx.note(format!("maps: all {} histories of length <= {d} over {} operations with each of {READS} reads before each operation and before all of them; each history repeated at other addresses and in another thread", hs.len(), alpha.len()));
    // Every shape, every operation on it, every read before and after.
    let nmax = ctx.pick(6, 9);
    let sh = hist::shapes(ctx, 0, 0, nmax, false);
    ctx.par_items(&sh, |st| {
        let mut places = st.keys.clone();
        places.extend(hist::gaps(&st.keys));
        for o in [hist::INS, hist::REM, hist::GETMUT] {
            for x in &places {
                let mut h = st.hist.clone();
                h.push(op(o, *x));
                for which in 0..2 {
                    if which == 1 && st.keys.len() > nmax - 2 {
                        continue;
                    }
                    for r in 0..READS {
                        // Reads at the place of the operation, at the root and in the gap at the end.
                        let mut ks = vec![*x, places[st.keys.len()], places[places.len() - 1]];
                        if st.keys.len() <= 4 {
                            ks = places.clone();
                        } else if let Some(k) = st.keys.get(st.keys.len() / 2) {
                            ks.push(*k);
                        }
                        ks.sort();
                        ks.dedup();
                        for k in ks {
                            let mut p = vec![which, r, k, h.len() as i64 - 1];
                            p.extend(&h);
                            ctx.run(ri, &p);
                        }
                    }
                }
            }
        }
        let mut p = vec![1];
        p.extend(&st.hist);
        ctx.run(ai, &p);
    });
    ctx.note(format!("maps: each read at each place before each change of all {} tree shapes of up to {nmax} keys", sh.len()));
    let bi = ctx.scen("dbig");
    let mut v = vec![];
    for n in ctx.pick(vec![8i64, 16, 17, 20, 32, 33, 50, 64, 65, 100, 128, 129, 255, 256, 257, 300], (7..=140).chain([200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025]).collect()) {
        for r in 0..READS {
            for o in [hist::INS, hist::REM, hist::GETMUT] {
                for (i, x) in [1, 2 * (n / 3) + 1, 2 * n - 1, 2 * (n / 2)].into_iter().enumerate() {
                    for k in [x, n | 1] {
                        v.push(vec![(r + i as i64) % 2, (n + r + i as i64) % 8, n, r, k, o, x, if n <= 33 { -1 } else { 0 }]);
                    }
                }
            }
        }
    }
    v.reverse();
    let k = v.len();
    ctx.par_items(&v, |p| {
        ctx.run(bi, p);
    });
    ctx.note(format!("maps: {k} histories of up to 300 entries with each read before changes at the ends and in the middle"));
    let small = ctx.pick(3, 5);
    ctx.par_items(&sh[..sh.iter().position(|s| s.keys.len() > small).unwrap_or(sh.len())], |st| {
        let mut places = st.keys.clone();
        places.extend(hist::gaps(&st.keys));
        // Fresh, and with a value written through a mutable reference and not read since.
        let mut hs = vec![st.hist.clone()];
        for k in &st.keys {
            let mut h = st.hist.clone();
            h.push(op(hist::GETMUT, *k));
            hs.push(h);
        }
        for h in hs {
            for which in 0..2 {
                for r in 0..READS {
                    for q in 0..READS {
                        for a in &places {
                            for b in [places[0], *a, places[places.len() - 1]] {
                                let mut p = vec![which, r, *a, q, b];
                                p.extend(&h);
                                ctx.run(pi, &p);
                            }
                        }
                    }
                }
            }
        }
    });
    ctx.note(format!("maps: every pair of reads, each asked again after the other, on all shapes of up to {small} keys, also right after a write through a reference"));
    let gi = ctx.scen("dgroup");
    let mut items = vec![];
    for l in 0..LAYOUTS.len() as i64 {
        let n = LAYOUTS[l as usize].len() as i64;
        let mut hs: Vec<Vec<i64>> = vec![vec![]];
        let mut cur = hs.clone();
        for _ in 0..ctx.pick(2, 3) {
            cur = cur.iter().flat_map(|h| (0..n).flat_map(move |x| (0..3).map(move |c| [&h[..], &[x * 4 + c]].concat()))).collect();
            hs.extend(cur.clone());
        }
        for h in hs {
            for r in 0..GREADS {
                for x in 0..n {
                    for at in -1..=h.len() as i64 {
                        let mut p = vec![l, r, x, at];
                        p.extend(&h);
                        items.push(p);
                    }
                }
            }
        }
    }
    ctx.par_items(&items, |p| {
        ctx.run(gi, p);
    });
    ctx.note(format!("groups: {} cases: {} layouts, every history of changes, every read of every leaf before every change, groups built anew each time", items.len(), LAYOUTS.len()));
    let wi = ctx.scen("dgagain");
    let mut items = vec![];
    for n in (1..crate::group::MAXL as i64).chain([40, 80]) {
        for style in 0..7 {
            for kind in [0, 5, 6] {
                items.push(vec![n, style, kind]);
            }
        }
    }
    ctx.par_items(&items, |p| {
        ctx.run(wi, p);
    });
    ctx.note(format!("groups: {} layouts of up to 80 leaves, each built 11 times in three threads (hash map seeds differ)", items.len()));
    let si = ctx.scen("dseq");
    let d = ctx.pick(3, 5);
    let mut hs: Vec<Vec<i64>> = vec![vec![]];
    let mut cur = hs.clone();
    for _ in 0..d {
        cur = cur.iter().flat_map(|h| (0..6).map(move |o| [&h[..], &[o]].concat())).collect();
        hs.extend(cur.clone());
    }
    ctx.par_items(&hs, |h| {
        for r in 0..15 {
            for at in -1..=h.len() as i64 {
                let mut p = vec![r, at];
                p.extend(h);
                ctx.run(si, &p);
            }
        }
    });
    ctx.note(format!("sequences: all {} histories of length <= {d} with each of 15 reads before each change", hs.len()));
    let gi = ctx.scen("dpaged");
    let d = ctx.pick(5, 8);
    let mut hs: Vec<Vec<i64>> = vec![vec![]];
    let mut cur = hs.clone();
    for _ in 0..d {
        cur = cur.iter().flat_map(|h| (0..3).map(move |o| [&h[..], &[o]].concat())).collect();
        hs.extend(cur.clone());
    }
    ctx.par_items(&hs, |h| {
        for r in 0..11 {
            for k in 0..3 {
                for at in -1..=h.len() as i64 {
                    if h.len() >= 4 && at >= 0 && at < h.len() as i64 - 1 {
                        continue;
                    }
                    let mut p = vec![r, k, at];
                    p.extend(h);
                    ctx.run(gi, &p);
                }
            }
        }
    });
    ctx.note(format!("paged: all {} insertion histories of length <= {d} with each of 11 reads", hs.len()));
    let ni = ctx.scen("dnested");
    let mut alpha = vec![];
    for o in 0..2 {
        for k in 0..3 {
            for i in 0..2 {
                alpha.push(o * 16 + k * 4 + i);
            }
        }
        alpha.push(o * 16 + 12);
    }
    let d = ctx.pick(3, 4);
    let mut hs: Vec<Vec<i64>> = vec![vec![]];
    let mut cur = hs.clone();
    for _ in 0..d {
        cur = cur.iter().flat_map(|h| alpha.iter().map(move |o| [&h[..], &[*o]].concat())).collect();
        hs.extend(cur.clone());
    }
    ctx.par_items(&hs, |h| {
        for r in 0..10 {
            for o in 0..2 {
                for at in -1..=h.len() as i64 {
                    let mut p = vec![r, o, at];
                    p.extend(h);
                    ctx.run(ni, &p);
                }
            }
        }
    });
    ctx.note(format!("nested maps: all {} histories of length <= {d} with each of 10 reads of each outer key before each change", hs.len()));
    let pi = ctx.scen("dproc");
    ctx.par(CORPUS as u64, |i| {
        ctx.run(pi, &[i as i64]);
    });
    ctx.note(format!("processes: {CORPUS} parts of a corpus of collections of every kind, in two processes with other environments and addresses"));
}
