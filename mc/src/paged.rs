//! Paged collections.
use crate::engine::{Ctx, Fp, Obs};
use crate::hist::ck;
use crate::seq::{chain, IT};
use crate::spec::{self, Look, T};
use candid::{CandidType, Decode, Encode, Principal};
use certified_vars::label::Label;
use certified_vars::{AsHashTree, Paged, Seq};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::BTreeMap;
use std::fmt::Debug;

pub const CONTENT: i64 = 1;
pub const PROOFS: i64 = 2;
pub const PERSIST: i64 = 4;

pub trait PK: Label + PartialEq + Clone + Debug + Serialize + DeserializeOwned + CandidType + for<'a> candid::Deserialize<'a> + 'static {
    fn mk(i: i64) -> Self;
    fn lb(&self) -> Vec<u8>;
}
impl PK for u8 {
    fn mk(i: i64) -> u8 {
        [0, 1, 127, 128, 255][i as usize]
    }
    fn lb(&self) -> Vec<u8> {
        vec![*self]
    }
}
impl PK for u64 {
    fn mk(i: i64) -> u64 {
        if i >= 5 {
            // Spread, in another order than that of the numbers.
            return (i as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) | 2;
        }
        [0, 255, 256, 1 << 32, u64::MAX][i as usize]
    }
    fn lb(&self) -> Vec<u8> {
        (0..8).rev().map(|s| (self >> (8 * s)) as u8).collect()
    }
}
impl PK for [u8; 4] {
    fn mk(i: i64) -> Self {
        [[0; 4], [0, 0, 0, 1], [0, 1, 0, 0], [1, 0, 0, 0], [255; 4]][i as usize]
    }
    fn lb(&self) -> Vec<u8> {
        self.to_vec()
    }
}
impl PK for String {
    fn mk(i: i64) -> Self {
        ["\0\0", "\0a", "aa", "ab", "b\0"][i as usize].into()
    }
    fn lb(&self) -> Vec<u8> {
        self.as_bytes().to_vec()
    }
}
/// Texts of different lengths that continue each other: their labels are not in their order.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, serde::Serialize, serde::Deserialize, CandidType)]
pub struct Tx(String);
impl Label for Tx {
    fn as_label(&self) -> std::borrow::Cow<'_, [u8]> {
        self.0.as_label()
    }
}
impl PK for Tx {
    fn mk(i: i64) -> Self {
        Tx(["a", "a\0\0\0\0", "", "a\0\0\0\u{1}", "a\0"][i as usize].into())
    }
    fn lb(&self) -> Vec<u8> {
        self.0.as_bytes().to_vec()
    }
}
impl PK for i16 {
    fn mk(i: i64) -> Self {
        [-1, 0, 1, i16::MIN, i16::MAX][i as usize]
    }
    fn lb(&self) -> Vec<u8> {
        self.to_be_bytes().to_vec()
    }
}
impl PK for Vec<u8> {
    fn mk(i: i64) -> Self {
        [vec![], vec![0; 4], vec![0; 5], vec![255], vec![0, 0, 0, 0, 0, 0, 0, 1]][i as usize].clone()
    }
    fn lb(&self) -> Vec<u8> {
        self.clone()
    }
}
impl PK for Principal {
    fn mk(i: i64) -> Self {
        Principal::from_slice(&[[0, 0, 1], [0, 1, 1], [1, 0, 1], [128, 0, 1], [255, 255, 1]][i as usize])
    }
    fn lb(&self) -> Vec<u8> {
        self.as_slice().to_vec()
    }
}

type Model<V> = BTreeMap<i64, Vec<V>>;

fn pages<V: Clone>(v: &[V], s: usize) -> Vec<Vec<V>> {
    v.chunks(s).map(|c| c.to_vec()).collect()
}

fn content<K: PK, V: IT, const S: usize>(c: &Paged<K, V, S>, m: &Model<V>) -> Result<(), String> {
    for i in (0..5).chain(m.keys().copied().filter(|k| *k >= 5)) {
        let k = K::mk(i);
        let none = vec![];
        let pg = pages(m.get(&i).unwrap_or(&none), S);
        let last = c.get_last_page_number(&k);
        ck(last == pg.len().checked_sub(1), || format!("page size {S}, {k:?}: last page is {last:?} with {} pages", pg.len()))?;
        let n = pg.len();
        let mut ask: Vec<usize> = (0..n + 3).collect();
        if n > 400 {
            ask = vec![0, 1, 127, 128, 254, 255, 256, 257, n / 2, n - 257, n - 2, n - 1, n, n + 1, 65535, 65536];
        }
        ask.extend([n + 255, n + 256, 1 << 16, 1 << 24, u32::MAX as usize - 1, u32::MAX as usize]);
        for x in [0, 1, n] {
            ask.extend([(1 << 32) + x, (1 << 33) + x, usize::MAX - x]);
        }
        for p in ask {
            let got = c.get(&k, p).map(|s| s.as_vec().clone());
            ck(got == pg.get(p).cloned(), || format!("page size {S}, {k:?}, page {p}: {got:?}, expected {:?}", pg.get(p)))?;
            if let (Some(s), Some(v)) = (c.get(&k, p), pg.get(p)) {
                ck(s.root_hash() == chain(v), || format!("page size {S}, {k:?}, page {p}: hash"))?;
            }
        }
    }
    Ok(())
}

fn page_label<K: PK>(k: &K, p: u32) -> Vec<u8> {
    let mut l = k.lb();
    l.extend([(p >> 24) as u8, (p >> 16) as u8, (p >> 8) as u8, p as u8]);
    l
}

fn proofs<K: PK, V: IT, const S: usize>(c: &Paged<K, V, S>, m: &Model<V>) -> Result<(), String> {
    let root = c.root_hash();
    let full = spec::of(&c.as_hash_tree());
    ck(spec::digest(&full) == root, || "the root hash is not the digest of the full tree".into())?;
    let mut want: Vec<(Vec<u8>, T)> = vec![];
    let many = m.len() > 8;
    for (i, v) in m {
        for (p, items) in pages(v, S).iter().enumerate() {
            want.push((page_label(&K::mk(*i), p as u32), T::P(chain(items))));
        }
    }
    if many {
        want.sort_by(|a, b| a.0.cmp(&b.0));
    }
    let got: Vec<T> = spec::flat(&full).into_iter().cloned().collect();
    let wt: Vec<T> = want.iter().map(|(l, t)| spec::l(l, t.clone())).collect();
    ck(got == wt, || format!("page size {S}: the full tree is {got:?}, expected {wt:?}"))?;
    ck(spec::well_formed(&full), || "labels are not ascending".into())?;
    for i in (0..5).chain(m.keys().copied().filter(|k| *k >= 5)) {
        let k = K::mk(i);
        let n = m.get(&i).map(|v| v.len().div_ceil(S)).unwrap_or(0);
        let check = |w: &T, p: u32, what: &str| -> Result<(), String> {
            let lb = page_label(&k, p);
            ck(spec::digest(w) == root, || format!("{what} {k:?}/{p}: digest is not the root hash"))?;
            let at = want.partition_point(|x| x.0 < lb);
            let l = spec::lookup(w, &lb);
            if want.get(at).map(|x| x.0 == lb).unwrap_or(false) {
                ck(l == Look::Found(&want[at].1), || format!("{what} {k:?}/{p}: {l:?}, expected the page's hash"))?;
                ck(spec::labels(w) == vec![&lb[..]], || format!("{what} {k:?}/{p}: shows other pages"))?;
            } else {
                ck(l == Look::Absent, || format!("{what} {k:?}/{p}: {l:?}, expected a proof of absence; {w:?}"))?;
                let mut near = vec![];
                if at > 0 {
                    near.push(&want[at - 1].0[..]);
                }
                if at < want.len() {
                    near.push(&want[at].0[..]);
                }
                ck(spec::labels(w) == near, || format!("{what} {k:?}/{p}: shows {:?}, expected the neighbours {near:?}", spec::labels(w)))?;
            }
            Ok(())
        };
        let mut ask: Vec<usize> = (0..n + 2).collect();
        if n > 40 {
            ask = vec![0, 1, n / 2, 127, 128, 254, 255, 256, 257, n - 1, n, n + 1];
        }
        ask.extend([n + 255, 1 << 16, u32::MAX as usize - 1, u32::MAX as usize]);
        for p in ask {
            check(&spec::of(&c.witness(&k, p)), p as u32, "witness")?;
        }
        // Page numbers no page can have: a proof that says nothing about another, existing page.
        for p in [1usize << 32, (1 << 32) + 1, (1 << 32) + n, usize::MAX] {
            let w = spec::of(&c.witness(&k, p));
            ck(spec::digest(&w) == root, || format!("witness {k:?}/{p}: digest"))?;
            for x in 0..n {
                ck(!matches!(spec::lookup(&w, &page_label(&k, x as u32)), Look::Found(T::V(_))), || "shows values".into())?;
            }
            ck(spec::lookup(&w, &page_label(&k, u32::MAX)) == Look::Absent, || format!("witness {k:?}/{p} is not a proof of absence"))?;
        }
        let w = spec::of(&c.witness_last_page_number(&k));
        check(&w, n as u32, "last page witness")?;
        if n > 0 {
            let ls = spec::labels(&w);
            ck(ls.contains(&&page_label(&k, n as u32 - 1)[..]), || format!("the last page witness of {k:?} does not show page {}", n - 1))?;
        }
    }
    Ok(())
}

fn run_t<K: PK, V: IT, const S: usize>(mask: i64, ops: &[i64], obs: &mut Obs) -> Result<(), String> {
    let mut c: Paged<K, V, S> = Paged::new();
    let mut m: Model<V> = Model::new();
    let mut f = Fp::new();
    for (n, o) in ops.iter().enumerate() {
        match o {
            0..=4 => {
                c.insert(K::mk(*o), V::mk(n as i64));
                m.entry(*o).or_default().push(V::mk(n as i64));
            }
            5 => {
                let b = serde_cbor::to_vec(&c).map_err(|e| e.to_string())?;
                c = serde_cbor::from_slice(&b).map_err(|e| e.to_string())?;
            }
            6 => {
                let b = Encode!(&c).map_err(|e| e.to_string())?;
                c = Decode!(&b, Paged<K, V, S>).map_err(|e| e.to_string())?;
            }
            7 => {
                let _ = c.root_hash();
            }
            // One item for each of a number of keys: -(1000 * step + number), in steps around the list.
            o if *o < 0 => {
                let (step, num) = (-o / 1000, -o % 1000);
                for x in 0..num {
                    let k = 5 + x * step % num;
                    c.insert(K::mk(k), V::mk(n as i64));
                    m.entry(k).or_default().push(V::mk(n as i64));
                }
            }
            // A run of insertions for one key: 100 * count + key.
            o if *o >= 100 => {
                let (cnt, k) = (o / 100, o % 100);
                let v = m.entry(k).or_default();
                for x in 0..cnt {
                    c.insert(K::mk(k), V::mk(x));
                    v.push(V::mk(x));
                }
            }
            o => panic!("operation {o}"),
        }
        obs.steps += 1;
    }
    obs.trivial = m.is_empty();
    for (k, v) in &m {
        f.num(*k as u64);
        f.num(v.len() as u64);
    }
    f.num(S as u64);
    obs.fp = f.0;
    obs.text = format!("page size {S}, items per key {:?}", m.iter().map(|x| (*x.0, x.1.len())).collect::<Vec<_>>());
    if mask & CONTENT != 0 {
        content(&c, &m)?;
        if ops.is_empty() {
            content(&Paged::<K, V, S>::default(), &m)?;
        }
    }
    if mask & PROOFS != 0 {
        proofs(&c, &m)?;
    }
    if mask & PERSIST != 0 {
        for how in 0..3 {
            let mut d: Paged<K, V, S> = match how {
                0 => serde_cbor::from_slice(&serde_cbor::to_vec(&c).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?,
                1 => Decode!(&Encode!(&c).map_err(|e| e.to_string())?, Paged<K, V, S>).map_err(|e| e.to_string())?,
                _ => bincode::deserialize(&bincode::serialize(&c).map_err(|e| e.to_string())?).map_err(|e| format!("bincode: {e}"))?,
            };
            content(&d, &m)?;
            proofs(&d, &m)?;
            for k in 0..2 {
                let mut m2 = m.clone();
                d.insert(K::mk(k), V::mk(3));
                m2.entry(k).or_default().push(V::mk(3));
                content(&d, &m2)?;
                proofs(&d, &m2)?;
                d = serde_cbor::from_slice(&serde_cbor::to_vec(&c).unwrap()).unwrap();
            }
        }
    }
    Ok(())
}

macro_rules! sizes {
    ($k:ty, $v:ty, $s:expr, $mask:expr, $ops:expr, $obs:expr) => {
        match $s {
            1 => run_t::<$k, $v, 1>($mask, $ops, $obs),
            2 => run_t::<$k, $v, 2>($mask, $ops, $obs),
            3 => run_t::<$k, $v, 3>($mask, $ops, $obs),
            _ => run_t::<$k, $v, 5>($mask, $ops, $obs),
        }
    };
}

/// Parameters: key type, page size, checks, operations.
pub fn paged(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let (s, mask, ops) = (p[1], p[2], &p[3..]);
    match p[0] {
        0 => sizes!(u8, u32, s, mask, ops, obs),
        1 => sizes!(u64, String, s, mask, ops, obs),
        2 => sizes!([u8; 4], u8, s, mask, ops, obs),
        3 => sizes!(String, Vec<u8>, s, mask, ops, obs),
        5 => sizes!(Tx, u8, s, mask, ops, obs),
        6 => sizes!(i16, u32, s, mask, ops, obs),
        7 => sizes!(Vec<u8>, u32, s, mask, ops, obs),
        _ => sizes!(Principal, Seq<u8>, s, mask, ops, obs),
    }
}

const SIZES: [i64; 13] = [4, 7, 8, 16, 17, 64, 100, 128, 255, 256, 257, 1000, 65536];
/// Parameters: page size, checks, operations.
pub fn sizes(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let (mask, ops) = (p[1], &p[2..]);
    macro_rules! of {
        ($($n:literal)*) => {
            match p[0] {
                $($n => run_t::<u8, u32, $n>(mask, ops, obs),)*
                s => panic!("page size {s}"),
            }
        };
    }
    of!(4 7 8 16 17 64 100 128 255 256 257 1000 65536)
}

/// Parameters: page size, key, page (-1: the last page witness), keys of the insertions. The witness
/// is the first thing read.
pub fn unread(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    fn go<const S: usize>(k: i64, page: i64, ops: &[i64]) -> Result<(), String> {
        let mut c: Paged<u8, u32, S> = Paged::new();
        let mut m: Model<u32> = Model::new();
        for (n, o) in ops.iter().enumerate() {
            c.insert(<u8 as PK>::mk(*o), n as u32);
            m.entry(*o).or_default().push(n as u32);
        }
        let key = <u8 as PK>::mk(k);
        let none = vec![];
        let pg = pages(m.get(&k).unwrap_or(&none), S);
        let (w, page) = match page {
            -1 => (spec::of(&c.witness_last_page_number(&key)), pg.len()),
            n => (spec::of(&c.witness(&key, n as usize)), n as usize),
        };
        ck(spec::digest(&w) == c.root_hash(), || format!("the witness of page {page} of {key}, made before anything is read, does not verify"))?;
        let l = spec::lookup(&w, &page_label(&key, page as u32));
        let want = pg.get(page).map(|v| T::P(chain(v)));
        ck(l == want.as_ref().map_or(Look::Absent, Look::Found), || format!("the witness of page {page} of {key} says {l:?}"))?;
        proofs(&c, &m)
    }
    match p[0] {
        1 => go::<1>(p[1], p[2], &p[3..]),
        2 => go::<2>(p[1], p[2], &p[3..]),
        _ => go::<3>(p[1], p[2], &p[3..]),
    }?;
    obs.steps = p.len() as u64 - 2;
    obs.fp = p.iter().fold(11u64, |a, x| a.wrapping_mul(1009).wrapping_add((*x + 1) as u64));
    Ok(())
}

pub fn plan(ctx: &Ctx, mask: i64) {
    let si = ctx.scen("paged");
    let d = ctx.pick(if mask == CONTENT { 8 } else { 7 }, if mask & PERSIST != 0 { 8 } else { 9 });
    for s in [1, 2, 3] {
        ctx.sequences(si, &[0, s, mask], &[2, 1, 3], d);
    }
    ctx.note(format!("all insertion histories of length <= {d} over 3 keys, page sizes 1, 2, 3"));
    let d = ctx.pick(4, 6);
    for ty in 0..5 {
        for s in [1, 2, 5] {
            ctx.sequences(si, &[ty, s, mask], &[2, 0, 4, 1, 3, 5, 6, 7], if ty == 0 { d } else { d - 1 });
        }
    }
    ctx.note(format!("five key types: all histories of length <= {} (one key type: {d}) of insertions for 5 keys, round trips and reads", d - 1));
    if mask == CONTENT {
        for ty in 5..8 {
            for s in [1, 2, 5] {
                ctx.sequences(si, &[ty, s, mask], &[2, 0, 4, 1, 3, 5, 6, 7], d);
            }
        }
        ctx.note(format!("key types whose labels are not in key order or continue each other: all histories of length <= {d}"));
    }
    let mut items = vec![];
    for num in ctx.pick(&[9i64, 10, 17, 33, 64, 100, 257][..], &[9, 10, 11, 16, 17, 31, 32, 33, 64, 65, 100, 129, 257, 500, 999]) {
        for step in [1, 2, 3, num / 2, num - 1, num / 3 * 2 + 1] {
            for s in [1, 2, 3] {
                // Each key once around (the steps need not meet every key), three or four times.
                items.push(vec![1, s, mask, -(1000 * step + num), -(1000 + num), -(1000 * (num - 1) + num)]);
                items.push(vec![1, s, mask, 1, -(1000 * step + num), 2, -(1000 * step + num), 5, -(1000 * step + num), 6, -(1000 + num), 0]);
            }
        }
    }
    ctx.par_items(&items, |p| {
        ctx.run(si, p);
    });
    ctx.note(format!("{} histories with {} to {} keys, round robin in different orders", items.len(), 9, ctx.pick(257, 999)));
    if mask & PROOFS != 0 {
        let ui = ctx.scen("paged-unread");
        let d = ctx.pick(5, 7);
        for s in 1..=3 {
            for k in 0..5 {
                for page in -1..4 {
                    ctx.sequences(ui, &[s, k, page], &[2, 1, 3], d);
                }
            }
        }
        ctx.note(format!("after every insertion history of length <= {d} over 3 keys, any witness as the first thing read"));
    }
    let zi = ctx.scen("paged-sizes");
    let mut items = vec![];
    for s in SIZES {
        for (a, n) in [(1, 0), (s - 1, 1), (s, s), (s + 1, s - 1), (2 * s - 1, 1), (2 * s, s + 1), (2 * s + 1, 2 * s), (3 * s, 1), (s / 2, s), (s / 2 + 1, s / 2), (4 * s + 1, 3 * s - 1), (9 * s, 3)] {
            if s > 1000 && (a > 2 * s + 1 || a + n > 2 * s + 2) || s > 300 && mask & PERSIST != 0 {
                continue;
            }
            for (ka, kb) in [(1, 2), (2, 1), (4, 0)] {
                let mut p = vec![s, mask, a * 100 + ka];
                if n > 0 {
                    p.push(n * 100 + kb);
                }
                items.push(p.clone());
                if s <= 300 {
                    p.extend([5, ka, kb, 6, s * 100 + ka]);
                    items.push(p);
                }
            }
        }
    }
    items.reverse();
    ctx.par_items(&items, |p| {
        ctx.run(zi, p);
    });
    ctx.note(format!("page sizes {SIZES:?}: {} pairs of runs of insertions that end before, at and after the end of a page", items.len()));
    // Runs: many pages, interleaved with other keys.
    let mut items = vec![];
    let lens: &[i64] = ctx.pick(&[1, 2, 3, 4, 5, 6, 9, 10, 11, 16, 127, 128, 129, 255, 256, 257, 300], &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 127, 128, 129, 255, 256, 257, 258, 300, 511, 512, 513, 1000]);
    for a in lens {
        for b in lens.iter().filter(|x| **x <= 300) {
            for (ka, kb) in [(1, 2), (2, 1), (0, 4), (3, 3)] {
                for s in [1, 2, 3, 5] {
                    items.push(vec![(a + b + ka) % 5, s, mask, a * 100 + ka, b * 100 + kb, ka, 300 + kb, 2]);
                }
            }
        }
    }
    items.push(vec![0, 1, mask, 70000 * 100 + 1, 100 * 3 + 2, 1, 1]);
    items.push(vec![1, 3, mask, 200000 * 100 + 1, 100 * 3 + 2, 1, 1]);
    items.reverse();
    ctx.par_items(&items, |p| {
        if mask & PERSIST != 0 && p[3] > 30000 {
            return;
        }
        ctx.run(si, p);
    });
    ctx.note(format!("{} pairs of runs of insertions of up to {} items and two with more than 65536 pages", items.len(), lens.last().unwrap()));
}

pub fn c09(ctx: &Ctx) {
    plan(ctx, CONTENT)
}
pub fn c10(ctx: &Ctx) {
    plan(ctx, PROOFS)
}
