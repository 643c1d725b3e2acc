//! Prefix queries: witnesses of the keys with a prefix, greatest entry with a prefix.
use crate::engine::{Ctx, Fp, Obs};
use crate::hist::{ck, gaps, op, op_key, shapes, INS, REM, SHIFT};
use crate::spec::{self, Look, T};
use certified_vars::label::{Label, Prefix};
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, Map};
use std::borrow::{Borrow, Cow};
use std::fmt::Debug;

/// A structured key: several keys borrow as the same prefix.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct G {
    g: u8,
    id: u64,
}
impl Label for G {
    fn as_label(&self) -> Cow<[u8]> {
        let mut v = vec![self.g];
        v.extend(self.id.to_be_bytes());
        Cow::Owned(v)
    }
}
impl Borrow<u8> for G {
    fn borrow(&self) -> &u8 {
        &self.g
    }
}
impl Prefix<u8> for G {}

trait PT<P: ?Sized + Ord>: Label + Prefix<P> + Clone + Debug + 'static {
    fn lb(&self) -> Vec<u8>;
    fn has(&self, p: &P) -> bool;
    /// Whether the prefix itself orders before every key that has it and is distinct from all of
    /// them (so that a neighbour below is needed).
    const BYTES: bool;
}
impl PT<u8> for G {
    fn lb(&self) -> Vec<u8> {
        let mut v = vec![self.g];
        for s in (0..8).rev() {
            v.push((self.id >> (8 * s)) as u8);
        }
        v
    }
    fn has(&self, p: &u8) -> bool {
        self.g == *p
    }
    const BYTES: bool = false;
}
impl PT<[u8]> for Vec<u8> {
    fn lb(&self) -> Vec<u8> {
        self.clone()
    }
    fn has(&self, p: &[u8]) -> bool {
        self.len() >= p.len() && self.iter().zip(p).all(|(a, b)| a == b)
    }
    const BYTES: bool = true;
}
impl PT<[u8]> for Box<[u8]> {
    fn lb(&self) -> Vec<u8> {
        self.to_vec()
    }
    fn has(&self, p: &[u8]) -> bool {
        self.len() >= p.len() && self.iter().zip(p).all(|(a, b)| a == b)
    }
    const BYTES: bool = true;
}
macro_rules! arrays_pt {
    ($($n:literal)*) => { $(
impl PT<[u8]> for [u8; $n] {
    fn lb(&self) -> Vec<u8> {
        self.to_vec()
    }
    fn has(&self, p: &[u8]) -> bool {
        self.len() >= p.len() && self.iter().zip(p).all(|(a, b)| a == b)
    }
    const BYTES: bool = true;
}
    )* };
}
arrays_pt!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
impl PT<str> for String {
    fn lb(&self) -> Vec<u8> {
        self.as_bytes().to_vec()
    }
    fn has(&self, p: &str) -> bool {
        let (a, b) = (self.as_bytes(), p.as_bytes());
        a.len() >= b.len() && a.iter().zip(b).all(|(x, y)| x == y)
    }
    const BYTES: bool = true;
}

/// Either of the two collections.
enum S<K: Label + 'static> {
    M(Map<K, u32>),
    R(RbTree<K, u32>),
}
impl<K: Label + 'static> S<K> {
    fn new(which: i64) -> Self {
        if which == 0 {
            S::M(Map::new())
        } else {
            S::R(RbTree::new())
        }
    }
    fn insert(&mut self, k: K, v: u32) {
        match self {
            S::M(m) => {
                m.insert(k, v);
            }
            S::R(r) => {
                r.insert(k, v);
            }
        }
    }
    fn remove(&mut self, k: &K) {
        match self {
            S::M(m) => {
                m.remove(k);
            }
            S::R(r) => {
                r.delete(k);
            }
        }
    }
    fn tree(&self) -> &RbTree<K, u32> {
        match self {
            S::M(m) => m.as_tree(),
            S::R(r) => r,
        }
    }
}

fn leafd(v: u32) -> spec::T {
    T::P(spec::leaf_digest(&v.to_be_bytes()))
}

fn full_is<K: PT<P>, P: ?Sized + Ord>(t: &RbTree<K, u32>, e: &[(K, u32)], what: &str) -> Result<(), String> {
    let full = spec::of(&t.as_hash_tree());
    ck(spec::digest(&full) == t.root_hash(), || format!("{what}: the root hash is not the digest of the full tree"))?;
    let want: Vec<T> = e.iter().map(|(k, v)| spec::l(&k.lb(), T::V(v.to_be_bytes().to_vec()))).collect();
    let got: Vec<T> = spec::flat(&full).into_iter().cloned().collect();
    ck(got == want, || format!("{what}: the full tree is {got:?}, expected {want:?}"))
}

/// All checks for one prefix; `probes` are keys that may be absent.
fn one<K: PT<P>, P: ?Sized + Ord + Debug>(s: &mut S<K>, e: &mut Vec<(K, u32)>, p: &P, probes: &[K]) -> Result<(), String> {
    // A change that nothing has read yet, then the witness.
    let many = e.len();
    for i in 0..many.min(10) {
        let x = &mut e[i * (many - 1) / many.min(10).max(2) % many];
        x.1 += 7;
        match s {
            S::M(m) => *m.get_mut::<K>(&x.0).unwrap() = x.1,
            S::R(r) => r.modify::<K, ()>(&x.0, |v| *v = x.1).unwrap(),
        }
        let w = match s {
            S::M(m) => spec::of(&m.witness_keys_with_prefix(p)),
            S::R(r) => spec::of(&r.keys_with_prefix(p)),
        };
        ck(spec::digest(&w) == s.tree().root_hash(), || format!("keys_with_prefix({p:?}) after a change at {:?}: digest is not the root hash", x.0))?;
    }
    let root = s.tree().root_hash();
    // Positions of the keys with the prefix; they are contiguous.
    let group: Vec<usize> = (0..e.len()).filter(|i| e[*i].0.has(p)).collect();
    let below = e.iter().filter(|x| !x.0.has(p) && <K as Borrow<P>>::borrow(&x.0) < p).count();
    let ws = match s {
        S::M(m) => vec![spec::of(&m.witness_keys_with_prefix(p)), spec::of(&m.as_tree().keys_with_prefix(p))],
        S::R(r) => vec![spec::of(&r.keys_with_prefix(p))],
    };
    for w in ws {
        ck(spec::digest(&w) == root, || format!("keys_with_prefix({p:?}): digest is not the root hash; {w:?}"))?;
        let shown = spec::labels(&w);
        let (lo, hi) = (below, below + group.len());
        let mut want: Vec<Vec<u8>> = e[lo..hi].iter().map(|x| x.0.lb()).collect();
        if lo > 0 && shown.first().map(|l| *l == &e[lo - 1].0.lb()[..]).unwrap_or(false) {
            want.insert(0, e[lo - 1].0.lb());
        }
        if hi < e.len() && shown.last().map(|l| *l == &e[hi].0.lb()[..]).unwrap_or(false) {
            want.push(e[hi].0.lb());
        }
        ck(shown == want, || format!("keys_with_prefix({p:?}) shows {shown:?}, expected {want:?} (of {e:?})"))?;
        for i in &group {
            let (k, v) = &e[*i];
            ck(spec::lookup(&w, &k.lb()) == Look::Found(&leafd(*v)), || format!("keys_with_prefix({p:?}): {k:?} is not shown with the hash of its value"))?;
        }
        ck(spec::leaves(&w).is_empty(), || format!("keys_with_prefix({p:?}) reveals values"))?;
        for k in probes {
            if !k.has(p) || e.iter().any(|x| x.0 == *k) {
                continue;
            }
            let after_first = group.first().map(|g| e[*g].0 < *k).unwrap_or(true);
            if K::BYTES || after_first {
                ck(spec::lookup(&w, &k.lb()) == Look::Absent, || format!("keys_with_prefix({p:?}) does not prove that {k:?} is absent: {w:?} (of {e:?})"))?;
            }
        }
    }
    // The greatest entry.
    let max = group.last().copied();
    let got = s.tree().max_entry_with_prefix(p).map(|(k, v)| (k.clone(), *v));
    ck(got == max.map(|i| e[i].clone()), || format!("max_entry_with_prefix({p:?}) is {got:?}, expected {:?} (of {e:?})", max.map(|i| &e[i])))?;
    if let S::R(r) = s {
        let mut calls = 0;
        let got = r.modify_max_with_prefix(p, |k, v| {
            calls += 1;
            let old = *v;
            *v = old + 1000;
            (k.clone(), old)
        });
        ck(calls == max.is_some() as i32, || format!("modify_max_with_prefix({p:?}) calls its function {calls} times"))?;
        ck(got == max.map(|i| e[i].clone()), || format!("modify_max_with_prefix({p:?}) sees {got:?}, expected {:?}", max.map(|i| &e[i])))?;
        if let Some(i) = max {
            e[i].1 += 1000;
        }
        let w = spec::of(&r.keys_with_prefix(p));
        ck(spec::digest(&w) == r.root_hash(), || format!("keys_with_prefix({p:?}) after modify_max_with_prefix: digest is not the root hash"))?;
        full_is(r, e, "after modify_max_with_prefix")?;
    }
    Ok(())
}

fn shape_t<K: PT<P>, P: ?Sized + Ord + Debug>(
    which: i64,
    mk: impl Fn(i64) -> K,
    prefixes: &[&P],
    ops: &[i64],
    obs: &mut Obs,
) -> Result<(), String> {
    let mut s: S<K> = S::new(which);
    let mut e: Vec<(K, u32)> = vec![];
    let mut ids: Vec<i64> = vec![];
    for (n, o) in ops.iter().enumerate() {
        let id = op_key(*o);
        let k = mk(id);
        match o >> SHIFT {
            INS => {
                s.insert(k.clone(), n as u32);
                e.retain(|x| x.0 != k);
                e.push((k, n as u32));
            }
            REM => {
                s.remove(&k);
                e.retain(|x| x.0 != k);
            }
            x => panic!("operation {x}"),
        }
        ids.retain(|x| *x != id);
        if o >> SHIFT == INS {
            ids.push(id);
        }
        e.sort();
    }
    ids.sort();
    let mut probes: Vec<K> = e.iter().map(|x| x.0.clone()).collect();
    probes.extend(gaps(&ids).iter().map(|i| mk(*i)));
    for p in prefixes {
        one(&mut s, &mut e, *p, &probes)?;
    }
    obs.steps = ops.len() as u64 + 3 * prefixes.len() as u64;
    obs.trivial = e.is_empty();
    let mut f = Fp::new();
    for (k, _) in &e {
        f.add(&k.lb());
    }
    let mut sh = vec![];
    spec::shape(&spec::of(&s.tree().as_hash_tree()), &mut sh);
    f.add(&sh);
    obs.fp = f.0;
    obs.text = format!("{} keys", e.len());
    Ok(())
}

/// Parameters: mode * 2 + which, first id of the group, first id after it, operations.
pub fn shape(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let (which, a, b, ops) = (p[0] % 2, p[1], p[2], &p[3..]);
    let g = |id: i64| if id < a { 0u8 } else if id < b { 1 } else { 2 };
    // In the exact modes the first key of the group is the prefix itself.
    let bytes = |id: i64, exact: bool| -> Vec<u8> {
        let mut v = vec![[7u8, 8, 9][g(id) as usize]];
        if !(exact && id == a) {
            v.extend(&id.to_be_bytes()[1..]);
        }
        v
    };
    let text = |id: i64, exact: bool| -> String {
        let h = ["a", "b\u{e9}", "c"][g(id) as usize];
        if exact && id == a {
            h.to_string()
        } else {
            format!("{h}{id:012x}")
        }
    };
    match p[0] / 2 {
        0 => shape_t::<G, u8>(which, |id| G { g: g(id), id: id as u64 }, &[&1, &0, &2, &3], ops, obs),
        m @ (1 | 2) => shape_t::<Vec<u8>, [u8]>(which, |id| bytes(id, m == 2), &[&[8], &[7], &[9], &[], &[7, 255], &[8, 0, 0]], ops, obs),
        m @ (3 | 4) => shape_t::<String, str>(which, |id| text(id, m == 4), &["b\u{e9}", "a", "c", "", "b", "b\u{ea}", "d"], ops, obs),
        5 => shape_t::<Box<[u8]>, [u8]>(which, |id| bytes(id, true).into(), &[&[8], &[7], &[9], &[]], ops, obs),
        6 => shape_t::<[u8; 8], [u8]>(
            which,
            |id| {
                let mut k = [0; 8];
                k.copy_from_slice(&bytes(id, false));
                k
            },
            &[&[8], &[7], &[9], &[], &[8, 0, 0, 0, 0, 0, 0, 0, 0]],
            ops,
            obs,
        ),
        m => panic!("mode {m}"),
    }
}

const WORDS: [&[u8]; 11] = [b"", b"\0", b"a", b"a\0", b"aa", b"aab", b"ab", b"b", b"\xff", b"\xff\xff", b"\xff\xff\xff"];

fn sets_t<K: PT<P>, P: ?Sized + Ord + Debug>(which: i64, keys: &[K], prefixes: &[&P], sel: i64, order: i64, obs: &mut Obs) -> Result<(), String> {
    let mut s: S<K> = S::new(which);
    let mut ix: Vec<usize> = (0..keys.len()).filter(|i| sel >> i & 1 == 1).collect();
    match order {
        0 => (),
        1 => ix.reverse(),
        _ => {
            let n = ix.len();
            let mut v: Vec<usize> = vec![];
            for st in 0..3 {
                v.extend((0..n).filter(|i| (i * 2 + 1) % 3 == st).map(|i| ix[i]));
            }
            ix = v;
        }
    }
    let mut e: Vec<(K, u32)> = vec![];
    for i in ix {
        s.insert(keys[i].clone(), i as u32);
        e.push((keys[i].clone(), i as u32));
    }
    e.sort();
    for p in prefixes {
        one(&mut s, &mut e, *p, keys)?;
    }
    obs.steps = (e.len() + 3 * prefixes.len()) as u64;
    obs.fp = (sel as u64) << 4 | order as u64;
    obs.trivial = sel == 0;
    Ok(())
}

/// Parameters: type * 2 + which, subset of the words, insertion order.
pub fn sets(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let (which, sel, order) = (p[0] % 2, p[1], p[2]);
    match p[0] / 2 {
        0 => {
            let keys: Vec<Vec<u8>> = WORDS.iter().map(|w| w.to_vec()).collect();
            let mut pre: Vec<&[u8]> = WORDS.to_vec();
            pre.extend([&b"ac"[..], b"\xfe", b"aaa", b"\xff\xff\xff\xff"]);
            sets_t::<Vec<u8>, [u8]>(which, &keys, &pre, sel, order, obs)
        }
        _ => {
            let ws = ["", "\0", "a", "a\0", "aa", "aab", "ab", "b", "\u{7f}", "\u{7ff}", "\u{ffff}\u{10ffff}"];
            let keys: Vec<String> = ws.iter().map(|w| w.to_string()).collect();
            let mut pre: Vec<&str> = ws.to_vec();
            pre.extend(["ac", "\u{7e}", "aaa", "\u{ffff}", "\u{10ffff}"]);
            sets_t::<String, str>(which, &keys, &pre, sel, order, obs)
        }
    }
}

/// A prefix of `n` bytes and keys around it: `pre` (of `n` bytes) and its neighbours in the order of keys.
fn around(n: usize, letter: impl Fn(usize) -> u8, low: u8, high: u8) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
    let pre: Vec<u8> = (0..n).map(letter).collect();
    let with = |tail: &[u8]| [&pre[..], tail].concat();
    let mut keys = vec![pre.clone(), with(&[low]), with(&[low, low]), with(&[high]), with(&[high, high, high]), vec![low], vec![high]];
    let mut ask = vec![pre.clone(), with(&[low]), with(&[high]), with(&[low, low, low])];
    // The same up to some byte
    for at in [n.saturating_sub(1), n / 2, 0] {
        if n == 0 {
            break;
        }
        keys.push(pre[..at].to_vec());
        ask.push(pre[..at].to_vec());
        for c in [low, high] {
            let mut k = pre.clone();
            k[at] = c;
            ask.push(k.clone());
            k.push(low);
            keys.push(k);
        }
    }
    (keys, ask)
}

fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

/// Parameters: type * 2 + which, length of the prefix, rotation of the order of insertion, key left out.
pub fn long(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let (which, n) = (p[0] % 2, p[1] as usize);
    let arrange = |mut v: Vec<Vec<u8>>| {
        v.sort();
        v.dedup();
        if (p[3] as usize) < v.len() {
            v.remove(p[3] as usize);
        }
        let r = p[2] as usize % v.len();
        v.rotate_left(r);
        if p[2] % 2 == 1 {
            v.reverse();
        }
        v
    };
    let all = i64::MAX;
    match p[0] / 2 {
        0 | 1 => {
            let (k, a) = around(n, |i| (i * 7 % 251) as u8 + 2, 0, 255);
            let a: Vec<&[u8]> = a.iter().map(|x| &x[..]).collect();
            if p[0] / 2 == 0 {
                sets_t::<Vec<u8>, [u8]>(which, &arrange(k), &a, all, 0, obs)
            } else {
                let k: Vec<Box<[u8]>> = arrange(k).into_iter().map(|x| x.into()).collect();
                sets_t::<Box<[u8]>, [u8]>(which, &k, &a, all, 0, obs)
            }
        }
        _ => {
            let (k, a) = around(n, |i| b'b' + (i % 20) as u8, b'a', b'z');
            let k: Vec<String> = arrange(k).into_iter().map(|x| String::from_utf8(x).unwrap()).collect();
            let a: Vec<String> = a.into_iter().map(|x| String::from_utf8(x).unwrap()).collect();
            let a: Vec<&str> = a.iter().map(|x| &x[..]).collect();
            sets_t::<String, str>(which, &k, &a, all, 0, obs)
        }
    }?;
    obs.fp = p.iter().fold(11, |a, x| a * 1009 + *x as u64);
    Ok(())
}

fn arrays_t<const N: usize>(which: i64, len: usize, order: i64, obs: &mut Obs) -> Result<(), String>
where
    [u8; N]: PT<[u8]>,
{
    let at = |i: usize| [0x00, 0xff, 0x61, 0x80][(i * 3 + order as usize) % 4];
    let pre: Vec<u8> = (0..len).map(at).collect();
    let mut keys: Vec<[u8; N]> = vec![];
    for fill in [[0, 0], [0xff, 0xff], [0, 0xff], [0xff, 0], [0x7f, 0x80], [b' ', b' ']] {
        let mut k = [fill[0]; N];
        k[N - 1] = fill[1];
        k[..len].copy_from_slice(&pre);
        keys.push(k);
        // The neighbours of the prefix
        for i in [0, len / 2, len.max(1) - 1] {
            for d in [1, 255, 0x80] {
                let mut k = k;
                k[i] = k[i].wrapping_add(d);
                keys.push(k);
            }
        }
    }
    keys.sort();
    keys.dedup();
    keys.truncate(60);
    let mut ask = vec![pre.clone(), [&pre[..], &[0]].concat(), [&pre[..], &[0xff]].concat(), [&pre[..], &[0xff; 40]].concat()];
    for i in [0, len / 2, len.max(1) - 1] {
        ask.push(pre[..i.min(len)].to_vec());
        if i < len {
            for d in [1, 255] {
                let mut p = pre[..=i].to_vec();
                p[i] = p[i].wrapping_add(d);
                ask.push(p);
            }
        }
    }
    let ask: Vec<&[u8]> = ask.iter().map(|x| &x[..]).collect();
    sets_t::<[u8; N], [u8]>(which, &keys, &ask, i64::MAX, order, obs)
}

/// Parameters: which, size of the arrays, length of the prefix, order of insertion.
pub fn arrays(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    macro_rules! by {
        ($($n:literal)*) => {
            match p[1] {
                $($n => arrays_t::<$n>(p[0], p[2] as usize, p[3], obs)?,)*
                n => panic!("size {n}"),
            }
        };
    }
    by!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32);
    obs.fp = p.iter().fold(17, |a, x| a * 1009 + *x as u64);
    Ok(())
}

/// Characters that some comparison or other takes for each other.
const CHARS: [&str; 48] = [
    "\0", "\t", "\n", " ", "!", "*", "-", ".", "/", "0", "1", "9", ":", "?", "@", "A", "B", "K", "Z", "[", "\\", "_", "`", "a", "b", "k", "z", "{", "\u{7f}", "\u{80}",
    "\u{a0}", "\u{c9}", "\u{df}", "\u{e9}", "\u{130}", "\u{131}", "\u{301}", "\u{7ff}", "\u{800}", "\u{200b}", "\u{212a}", "\u{2126}", "\u{d7ff}", "\u{feff}", "\u{fffd}", "\u{ffff}",
    "\u{10000}", "\u{10ffff}",
];

/// Parameters: type * 2 + which, two bytes or characters, order of insertion. Keys in which one of the
/// two is at the same place.
pub fn chars(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let (which, a, b, order) = (p[0] % 2, p[1], p[2], p[3]);
    let all = i64::MAX;
    if p[0] / 2 == 3 {
        let (a, b) = (CHARS[a as usize], CHARS[b as usize]);
        let mut keys = vec![];
        for c in [a, b] {
            keys.extend([c.to_string(), format!("{c}x"), format!("m{c}"), format!("m{c}x"), format!("{c}{a}"), format!("{c}{b}y")]);
        }
        keys.extend(["m".to_string(), "x".into(), "mx".into()]);
        let pre: Vec<String> = keys.iter().take(12).step_by(2).cloned().chain(["m".into(), "".into(), format!("{a}{b}"), format!("m{b}")]).collect();
        keys.sort();
        keys.dedup();
        let pre: Vec<&str> = pre.iter().map(|x| &x[..]).collect();
        sets_t::<String, str>(which, &keys, &pre, all, order, obs)?;
    } else {
        let (a, b) = (a as u8, b as u8);
        let mut keys: Vec<Vec<u8>> = vec![vec![a], vec![a, 7], vec![b], vec![b, 7], vec![7, a], vec![7, b], vec![7, a, 1], vec![7, b, 1], vec![7], vec![a, b], vec![b, a]];
        let pre: Vec<Vec<u8>> = vec![vec![a], vec![b], vec![7, a], vec![7, b], vec![a, b], vec![7]];
        keys.sort();
        keys.dedup();
        let pre: Vec<&[u8]> = pre.iter().map(|x| &x[..]).collect();
        match p[0] / 2 {
            0 => sets_t::<Vec<u8>, [u8]>(which, &keys, &pre, all, order, obs)?,
            1 => {
                let keys: Vec<Box<[u8]>> = keys.into_iter().map(|x| x.into()).collect();
                sets_t::<Box<[u8]>, [u8]>(which, &keys, &pre, all, order, obs)?
            }
            n @ (4 | 5 | 6) => {
                // The rest is filled with the largest byte, or with either of the two.
                let rest = [255, a, b][n as usize - 4];
                let mut keys: Vec<[u8; 3]> = keys
                    .iter()
                    .map(|x| {
                        let mut k = [rest; 3];
                        k[..x.len()].copy_from_slice(x);
                        k
                    })
                    .collect();
                keys.sort();
                keys.dedup();
                sets_t::<[u8; 3], [u8]>(which, &keys, &pre, all, order, obs)?
            }
            _ => {
                let mut keys: Vec<[u8; 8]> = keys
                    .iter()
                    .map(|x| {
                        let mut k = [0; 8];
                        k[..x.len()].copy_from_slice(x);
                        k
                    })
                    .collect();
                keys.sort();
                keys.dedup();
                sets_t::<[u8; 8], [u8]>(which, &keys, &pre, all, order, obs)?
            }
        }
    }
    obs.fp = p.iter().fold(13, |a, x| a * 1009 + *x as u64);
    Ok(())
}

pub fn c06(ctx: &Ctx) {
    crate::tree::value_shapes(ctx, crate::tree::PREFIXES);
    let si = ctx.scen("prefix-shape");
    let n = ctx.pick(11, 15);
    let all = shapes(ctx, 1, 0, n, false);
    ctx.par_items(&all, |st| {
        // The group: every interval of key positions, empty ones included, cut just below a key.
        let mut cuts = st.keys.clone();
        cuts.push(st.keys.last().map(|k| k + 1).unwrap_or(0));
        for (i, a) in cuts.iter().enumerate() {
            for b in &cuts[i..] {
                for mode in 0..7 {
                    for which in 0..2 {
                        if which == 0 && (i + mode) % 2 == 0 && ctx.quick() {
                            continue;
                        }
                        let mut p = vec![mode as i64 * 2 + which, *a, *b];
                        p.extend(&st.hist);
                        ctx.run(si, &p);
                    }
                }
                if ctx.stopped() {
                    return;
                }
            }
        }
    });
    ctx.note("in every tree shape: every contiguous group of keys shares the prefix, for seven kinds of key (structured keys, byte strings, text, boxes, arrays; the prefix itself a key or not)");
    // All histories over few keys.
    let d = ctx.pick(5, 7);
    let mut alpha = vec![];
    for k in [16, 24, 32, 40] {
        alpha.push(op(INS, k));
        alpha.push(op(REM, k));
    }
    for mode in [0, 2] {
        for (a, b) in [(16, 33), (17, 40), (24, 41)] {
            ctx.sequences(si, &[mode * 2 + 1, a, b], &alpha, d);
        }
    }
    ctx.note(format!("all histories of length <= {d} over 4 keys, three groupings"));
    let si = ctx.scen("prefix-sets");
    let m = 1 << WORDS.len();
    ctx.par(m * 3 * 4, |i| {
        let (ty, sel, o) = (i % 4, i / 4 % m, i / 4 / m);
        ctx.run(si, &[ty as i64, sel as i64, o as i64]);
    });
    ctx.note(format!("all {m} sets of {} words with nested prefixes, three insertion orders, every word and other strings as prefix", WORDS.len()));
    let si = ctx.scen("prefix-long");
    let mut v = vec![];
    for n in (0..=ctx.pick(300, 1100)).chain([1000, 1023, 1024, 1025, 4096, 65535, 65536]) {
        for ty in 0..6 {
            for rot in 0..if n < 80 { 16 } else { 2 } {
                for out in if n < 80 { vec![0, 3, 7, 99] } else { vec![99] } {
                    v.push(vec![ty, n, rot, out]);
                }
            }
        }
    }
    ctx.par_items(&v, |p| {
        ctx.run(si, p);
    });
    ctx.note(format!("{} sets of keys around prefixes of every length up to {} and some up to 65536 bytes", v.len(), ctx.pick(300, 1100)));
    let si = ctx.scen("prefix-chars");
    let mut v = vec![];
    for a in 0..256i64 {
        for b in a + 1..256 {
            let near = ctx.quick() && (a ^ b).count_ones() > 1 && b - a > 4 && (a * 31 + b) % 8 != 0;
            for ty in (0..6).chain(8..14) {
                if !near || ty == [0, 1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 13][(a + b * 5) as usize % 12] {
                    v.push(vec![ty, a, b, (a + b + ty) % 3]);
                }
            }
        }
    }
    for a in 0..CHARS.len() as i64 {
        for b in a + 1..CHARS.len() as i64 {
            for o in 0..3 {
                v.push(vec![6 + (a + b + o) % 2, a, b, o]);
            }
        }
    }
    ctx.par_items(&v, |p| {
        ctx.run(si, p);
    });
    let ai = ctx.scen("prefix-arrays");
    for n in 1..=32 {
        ctx.par(2 * 4 * (n as u64 + 1), |i| {
            let i = i as i64;
            ctx.run(ai, &[i % 2, n, i / 8, i / 2 % 4]);
        });
    }
    ctx.note("arrays of every size, prefixes of every length, filled up with the smallest, largest and other bytes");
    ctx.note(format!("{} sets of keys that differ in one byte (every pair of bytes) or in one of {} characters, with either in the prefix", v.len(), CHARS.len()));
    let si = ctx.scen("prefix-shape");
    let mut v = vec![];
    for n in (12..=ctx.pick(40i64, 100)).chain([64, 100, 127, 128, 129, 255, 256, 257, 600, 1000]) {
        let mut at: Vec<i64> = vec![0, 1, 2, n / 4, n / 3, n / 2, n / 2 + 1, n - 2, n - 1, n];
        at.sort();
        at.dedup();
        for (x, a) in at.iter().enumerate() {
            for (y, b) in at[x..].iter().enumerate() {
                if n > 100 && (x + y) % ctx.pick(7, 2) > 0 {
                    continue;
                }
                let mut p = vec![((x as i64 * 3 + y as i64 + n) % 7) * 2 + (x as i64 + y as i64) % 2, a * 8 + 1, b * 8 + 1];
                let step = [1, n - 1, 3, 5, 7].into_iter().cycle().skip((x + y) % 5).find(|s| gcd(*s, n) == 1).unwrap();
                p.extend((0..n).map(|i| op(INS, (i * step % n + 1) * 8)));
                v.push(p);
            }
        }
    }
    v.reverse();
    ctx.par_items(&v, |p| {
        ctx.run(si, p);
    });
    ctx.note(format!("{} maps of up to 1000 keys with groups of every size class at every place", v.len()));
}
