//! Sequences: every way of building one, against an ordinary list and the documented chain hash.
use crate::engine::{guarded, Ctx, Fp, Obs};
use crate::hist::ck;
use crate::spec::{self, Look, T};
use candid::{CandidType, Decode, Encode};
use certified_vars::{AsHashTree, Hash, HashTree, Map, Seq};
use serde::{de::DeserializeOwned, Serialize};
use std::borrow::Borrow;
use std::fmt::Debug;

pub trait IT: AsHashTree + Default + Clone + Debug + PartialEq + Serialize + DeserializeOwned + CandidType + for<'a> candid::Deserialize<'a> + 'static {
    fn mk(i: i64) -> Self;
    /// Hash of the item, computed independently.
    fn h(&self) -> Hash;
    /// Extends by reference where the type allows it.
    fn ext_ref(s: &mut Seq<Self>, v: &[Self]) {
        s.extend(v.iter().cloned())
    }
}
impl IT for u8 {
    fn mk(i: i64) -> u8 {
        [0, 1, 255, 7][i as usize % 4]
    }
    fn h(&self) -> Hash {
        spec::leaf_digest(&[*self])
    }
    fn ext_ref(s: &mut Seq<Self>, v: &[Self]) {
        s.extend(v)
    }
}
impl IT for u32 {
    fn mk(i: i64) -> u32 {
        i as u32
    }
    fn h(&self) -> Hash {
        spec::leaf_digest(&[(self >> 24) as u8, (self >> 16) as u8, (self >> 8) as u8, *self as u8])
    }
    fn ext_ref(s: &mut Seq<Self>, v: &[Self]) {
        s.extend(v.iter())
    }
}
impl IT for String {
    fn mk(i: i64) -> String {
        ["", "a", "ab", "\0"][i as usize % 4].into()
    }
    fn h(&self) -> Hash {
        spec::leaf_digest(self.as_bytes())
    }
}
impl IT for Vec<u8> {
    fn mk(i: i64) -> Self {
        vec![1; i as usize % 4]
    }
    fn h(&self) -> Hash {
        spec::leaf_digest(self)
    }
}
impl IT for Seq<u8> {
    fn mk(i: i64) -> Self {
        match i % 4 {
            0 => Seq::new(),
            1 => vec![1].into(),
            2 => vec![1, 2].into(),
            _ => vec![0].into(),
        }
    }
    fn h(&self) -> Hash {
        chain(self.as_vec())
    }
}

/// An item of which the second part is not certified.
#[derive(Clone, Debug, Default, PartialEq, Serialize, serde::Deserialize, CandidType)]
pub struct Half(u8, u8);
impl AsHashTree for Half {
    fn as_hash_tree(&self) -> HashTree<'_> {
        self.0.as_hash_tree()
    }
}
impl IT for Half {
    fn mk(i: i64) -> Self {
        Half(i as u8 % 2, i as u8 % 4)
    }
    fn h(&self) -> Hash {
        spec::leaf_digest(&[self.0])
    }
}

pub fn chain<X: IT>(v: &[X]) -> Hash {
    v.iter().fold([0; 32], |h, x| spec::sha(&[&h, &x.h()]))
}

/// An iterator whose lower size hint is off (allowed: hints only help).
struct Hint<I>(I, usize);
impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1, None)
    }
}
/// An iterator that only knows an upper bound, which is too large.
struct Upper<I>(I, usize);
impl<I: Iterator> Iterator for Upper<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, Some(self.1))
    }
}

const OPS: i64 = 34;
fn apply<X: IT>(s: &mut Seq<X>, v: &mut Vec<X>, o: i64) -> Result<(), String> {
    let x = X::mk;
    match o {
        0..=2 => {
            s.append(x(o));
            v.push(x(o));
        }
        3 => {
            s.extend(vec![x(1), x(0)]);
            v.extend([x(1), x(0)]);
        }
        4 => s.extend(Vec::<X>::new()),
        5 => {
            X::ext_ref(s, &[x(2), x(1), x(2)]);
            v.extend([x(2), x(1), x(2)]);
        }
        6 => {
            s.extend(Hint([x(0), x(2)].into_iter(), 0));
            v.extend([x(0), x(2)]);
        }
        7 => {
            s.extend(Hint([x(2)].into_iter(), 50));
            v.extend([x(2)]);
        }
        8 => *s = Seq::from(v.clone()),
        9 => *s = v.iter().cloned().collect(),
        10 => *s = Seq::from(&v[..]),
        11 => *s = Seq::from(&mut v.clone()[..]),
        12 => *s = s.clone(),
        13 => {
            s.clear();
            v.clear();
        }
        14 => {
            let b = serde_cbor::to_vec(&*s).map_err(|e| format!("serialize: {e}"))?;
            *s = serde_cbor::from_slice(&b).map_err(|e| format!("deserialize: {e}"))?;
        }
        15 => {
            let b = Encode!(&*s).map_err(|e| format!("candid encode: {e}"))?;
            *s = Decode!(&b, Seq<X>).map_err(|e| format!("candid decode: {e}"))?;
        }
        16 => s.reserve(10),
        17 => s.reserve_exact(3),
        18 => s.shrink_to_fit(),
        19 => {
            let got: Vec<X> = Vec::from(s.clone());
            ck(got == *v, || format!("converted to a list: {got:?}, expected {v:?}"))?;
            *s = Seq::from(got);
        }
        20 => {
            let mut t = Seq::with_capacity(2);
            ck(t.is_empty() && t.root_hash() == [0; 32] && t.capacity() >= 2, || "with_capacity".into())?;
            t.extend(v.iter().cloned());
            *s = t;
        }
        21 => {
            let mut t = Seq::default();
            for x in v.iter() {
                t.append(x.clone());
            }
            *s = t;
        }
        22 => {
            // Half converted, half appended.
            let h = v.len() / 2;
            let mut t = Seq::from(&v[..h]);
            X::ext_ref(&mut t, &v[h..]);
            *s = t;
        }
        23 => {
            let mut t = s.clone();
            t.append(x(1));
            *s = t;
            v.push(x(1));
        }
        24 => {
            // A clone and its original do not affect each other.
            let mut t = s.clone();
            t.append(x(2));
            t.clear();
        }
        25 => {
            s.extend(s.clone().iter().cloned());
            let c = v.clone();
            v.extend(c);
            v.truncate(1 << 12);
            if s.len() != v.len() {
                *s = v.clone().into();
            }
        }
        26 => {
            *s = v.iter().cloned().filter(|y| *y != x(1)).collect();
            v.retain(|y| *y != x(1));
        }
        27 => {
            let t = std::mem::take(s);
            ck(s.is_empty() && s.root_hash() == [0; 32], || "the default sequence is not empty".into())?;
            *s = t;
        }
        28 => {
            let t: Vec<X> = serde_cbor::from_slice(&serde_cbor::to_vec(&*s).unwrap()).map_err(|e| e.to_string())?;
            ck(t == *v, || "deserialized as a list".into())?;
            *s = serde_cbor::from_slice(&serde_cbor::to_vec(&t).unwrap()).map_err(|e| e.to_string())?;
        }
        29 => {
            let t = Decode!(&Encode!(&*s).unwrap(), Vec<X>).map_err(|e| e.to_string())?;
            ck(t == *v, || "decoded from Candid as a list".into())?;
            *s = Decode!(&Encode!(&t).unwrap(), Seq<X>).map_err(|e| e.to_string())?;
        }
        30 => {
            // Copied over another sequence: of the same length, shorter, longer, itself empty.
            let n = v.len();
            for other in [n, n / 2, n + 3, 0, 1] {
                let mut t: Seq<X> = (0..other).map(|i| x(i as i64 + 3)).collect();
                t.clone_from(s);
                ck(t == *s && t.root_hash() == chain(v) && t.as_vec() == v, || format!("copied over a sequence of {other} items"))?;
                *s = t;
            }
        }
        31 => {
            let t: Seq<X> = vec![x(2), x(1)].into();
            s.clone_from(&t);
            *v = vec![x(2), x(1)];
        }
        32 => {
            let mut t: Seq<X> = vec![x(1)].into();
            std::mem::swap(s, &mut t);
            std::mem::swap(s, &mut t);
            let r = std::mem::replace(s, Seq::new());
            *s = r;
        }
        33 => {
            // Boxed, in a vector and in a map, and copied with those.
            let w = vec![s.clone(), Seq::new(), s.clone()];
            let mut u = vec![Seq::new(), s.clone(), Seq::from(vec![x(1)])];
            u.clone_from(&w);
            ck(u[1].is_empty() && u[1].root_hash() == [0; 32] && u[0] == *s, || "copied in a vector".into())?;
            *s = u.pop().unwrap();
        }
        o => panic!("operation {o}"),
    }
    Ok(())
}

pub fn verify<X: IT>(s: &Seq<X>, v: &[X]) -> Result<(), String> {
    let h = chain(v);
    ck(s.len() == v.len(), || format!("len() is {}, expected {}", s.len(), v.len()))?;
    ck(s.is_empty() == v.is_empty(), || "is_empty()".into())?;
    ck(s.as_vec() == v, || format!("items are {:?}, expected {v:?}", s.as_vec()))?;
    ck(s.root_hash() == h, || format!("the hash of {v:?} is {}, expected {}", spec::hex(&s.root_hash()), spec::hex(&h)))?;
    ck(s.as_hash_tree() == HashTree::Pruned(h), || "as_hash_tree() is not the pruned hash".into())?;
    ck(s.as_hash_tree().reconstruct() == h, || "as_hash_tree().reconstruct()".into())?;
    ck(s.iter().eq(v.iter()), || "iter()".into())?;
    ck(s.iter().len() == v.len() && s.iter().rev().eq(v.iter().rev()), || "iter() from both ends".into())?;
    let a: &[X] = s.as_ref();
    let b: &[X] = s.borrow();
    ck(a == v && b == v, || "as_ref() or borrow()".into())?;
    ck(s.capacity() >= v.len(), || "capacity()".into())?;
    if v.len() < 40 {
        for (i, x) in v.iter().enumerate() {
            ck(s[i] == *x, || format!("[{i}]"))?;
            ck(&s[i..] == &v[i..] && &s[..i] == &v[..i] && &s[i..=i] == &v[i..=i], || format!("slices at {i}"))?;
        }
        ck(&s[..] == v, || "[..]".into())?;
    }
    let fresh: Seq<X> = {
        let mut t = Seq::new();
        for x in v {
            t.append(x.clone());
        }
        t
    };
    ck(*s == fresh && fresh == *s, || format!("not equal to the sequence built by appending the same items {v:?}"))?;
    if !v.is_empty() {
        let mut less = v.to_vec();
        let last = less.pop().unwrap();
        let shorter = Seq::from(less.clone());
        ck(*s != shorter, || "equal to a shorter sequence".into())?;
        ck(shorter.root_hash() != s.root_hash(), || "hash of a shorter sequence".into())?;
        for i in 0..4 {
            let y = X::mk(i);
            if y != last {
                let mut o = less.clone();
                let same = y.h() == last.h();
                o.push(y);
                let o = Seq::from(o);
                ck(o != *s && (same || o.root_hash() != s.root_hash()), || "a sequence with another last item is equal".into())?;
            }
        }
    }
    Ok(())
}

fn run_t<X: IT>(ops: &[i64], obs: &mut Obs) -> Result<(), String> {
    let mut s: Seq<X> = Seq::new();
    let mut v: Vec<X> = vec![];
    for o in ops {
        apply(&mut s, &mut v, *o)?;
    }
    obs.steps = ops.len() as u64;
    obs.trivial = ops.is_empty();
    let mut f = Fp::new();
    f.add(format!("{v:?}").as_bytes());
    obs.fp = f.0;
    obs.text = format!("-> {} items", v.len());
    verify(&s, &v)?;
    if ops.len() <= 2 {
        // Out of range accesses panic, they do not return something.
        let n = v.len();
        ck(guarded(|| drop(s[n].clone())).is_err(), || "an index out of range does not panic".into())?;
        ck(guarded(|| drop(s[n + 1..].to_vec())).is_err(), || "a slice out of range does not panic".into())?;
    }
    Ok(())
}

/// Parameters: item type, operations.
pub fn seq(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    match p[0] {
        0 => run_t::<u8>(&p[1..], obs),
        1 => run_t::<String>(&p[1..], obs),
        2 => run_t::<Seq<u8>>(&p[1..], obs),
        3 => run_t::<u32>(&p[1..], obs),
        5 => run_t::<Half>(&p[1..], obs),
        _ => run_t::<Vec<u8>>(&p[1..], obs),
    }
}

/// Parameters: number of items, how they are made.
pub fn seqlen(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let (n, how) = (p[0], p[1]);
    let v: Vec<u32> = (0..n).map(|i| (i * 2654435761) as u32).collect();
    let mut s: Seq<u32> = Seq::new();
    match how {
        0 => v.iter().for_each(|x| s.append(*x)),
        1 => s = v.clone().into(),
        2 => s = v.iter().copied().collect(),
        3 => s = Seq::from(&v[..]),
        4 => s.extend(&v),
        5 => {
            for c in v.chunks(7) {
                s.extend(c.iter().copied());
            }
        }
        6 => s = serde_cbor::from_slice(&serde_cbor::to_vec(&v).unwrap()).map_err(|e| e.to_string())?,
        7 => s = Decode!(&Encode!(&v).unwrap(), Seq<u32>).map_err(|e| e.to_string())?,
        8 => {
            // Cleared and filled again.
            s.extend(&v);
            s.clear();
            s.shrink_to_fit();
            s.extend(v.iter().copied());
        }
        10 => s = Hint(v.iter().copied(), 0).collect(),
        11 => s = Hint(v.iter().copied(), n as usize / 2).collect(),
        12 => s = Upper(v.iter().copied(), n as usize * 2 + 1).collect(),
        13 => s = v.chunks(5).flat_map(|c| c.iter().copied()).collect(),
        14 => s.extend(Hint(v.iter(), 0)),
        15 => s.extend(Hint(v.iter().copied(), 0)),
        16 => s.extend(Upper(v.iter().copied(), n as usize * 3 + 1)),
        17 => s = Seq::from(&mut v.clone()[..]),
        18 => {
            // A list of unknown length in the encoding.
            let mut b = vec![0x9f];
            for x in &v {
                b.extend(serde_cbor::to_vec(x).unwrap());
            }
            b.push(0xff);
            s = serde_cbor::from_slice(&b).map_err(|e| e.to_string())?;
        }
        19 => s = serde_cbor::from_reader(&serde_cbor::to_vec(&Seq::from(v.clone())).unwrap()[..]).map_err(|e| e.to_string())?,
        20 => s = serde_cbor::value::from_value(serde_cbor::Value::Array(v.iter().map(|x| serde_cbor::Value::Integer(*x as i128)).collect())).map_err(|e| e.to_string())?,
        21 => {
            // A long tail behind something short, and the other way round.
            let h = (n as usize).min(3);
            s = v[..h].iter().copied().collect();
            s.extend(Hint(v[h..].iter().copied(), 1));
        }
        22 => {
            s = Hint(v.iter().copied(), 0).take(n as usize).collect::<Vec<_>>().into();
            s = s.clone();
        }
        _ => {
            let mut m: Map<u8, Seq<u32>> = Map::new();
            for x in &v {
                m.append_deep(1, *x);
            }
            m.append_deep(2, 1);
            let t = spec::of(&m.witness(&1));
            let want = T::P(chain(&v));
            if n > 0 {
                ck(spec::lookup(&t, &[1]) == Look::Found(&want), || "witness of a sequence in a map".into())?;
                s = m.remove(&1).unwrap();
            }
        }
    }
    obs.steps = n as u64;
    obs.fp = (n * 16 + how) as u64;
    verify(&s, &v)
}

pub fn c08(ctx: &Ctx) {
    let si = ctx.scen("seq");
    let alpha: Vec<i64> = (0..OPS).collect();
    for ty in 0..6 {
        let d = match (ty, ctx.quick()) {
            (0, true) => 4,
            (_, true) => 3,
            (0, false) => 5,
            _ => 4,
        };
        ctx.sequences(si, &[ty], &alpha, d);
        ctx.note(format!("item type {ty}: all histories of length <= {d} over {OPS} operations"));
    }
    let core = [0, 1, 3, 5, 13, 10, 14, 23];
    let d = ctx.pick(6, 7);
    ctx.sequences(si, &[0], &core, d);
    ctx.note(format!("item type 0: all histories of length <= {d} over {} operations", core.len()));
    let sl = ctx.scen("seqlen");
    let max = ctx.pick(300, 1200);
    let mut ns: Vec<i64> = (0..=max).collect();
    ns.extend([4095, 4096, 65535, 65536, 65537]);
    ctx.par(ns.len() as u64 * 23, |i| {
        ctx.run(sl, &[ns[(i / 23) as usize], i as i64 % 23]);
    });
    ctx.note(format!("every length <= {max} and some up to 65537, 23 ways of construction"));
}
