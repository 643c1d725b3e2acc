//! Maps of maps (two and three levels), maps of sequences, nested witnesses.
use crate::engine::{Ctx, Fp, Obs};
use crate::hist::ck;
use crate::spec::{self, Look, T};
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, Map, Seq};
use std::collections::BTreeMap;

type M1 = Map<u8, u32>;
type M2 = Map<u8, M1>;
type B1 = BTreeMap<u8, u32>;
type B2 = BTreeMap<u8, B1>;

fn want1(b: &B1) -> Vec<T> {
    b.iter().map(|(k, v)| spec::l(&[*k], T::V(v.to_be_bytes().to_vec()))).collect()
}

/// The tree has exactly the labels and leaves of `b`.
fn shows1(t: &T, b: &B1) -> bool {
    spec::flat(t).into_iter().cloned().collect::<Vec<_>>() == want1(b)
}

fn full2(t: &T, b: &B2) -> Result<(), String> {
    let f = spec::flat(t);
    ck(f.len() == b.len(), || format!("the outer tree has {} entries, expected {}", f.len(), b.len()))?;
    for (x, (k, v)) in f.iter().zip(b) {
        match x {
            T::L(l, s) if l == &[*k] => ck(shows1(s, v), || format!("at {k} the full tree shows {s:?}, expected {v:?}"))?,
            x => return Err(format!("the full tree shows {x:?} for the outer key {k}")),
        }
    }
    Ok(())
}

/// Checks of a two level map: every nested witness there is.
fn check2(t: &RbTree<u8, M1>, b: &B2) -> Result<(), String> {
    let root = t.root_hash();
    let full = spec::of(&t.as_hash_tree());
    ck(spec::digest(&full) == root, || "the root hash is not the digest of the full tree".into())?;
    full2(&full, b)?;
    let keys: Vec<u8> = (0..=9).collect();
    for o in &keys {
        match b.get(o) {
            None => {
                let mut called = false;
                let w = spec::of(&t.nested_witness(o, |m| {
                    called = true;
                    m.witness_keys()
                }));
                ck(!called, || format!("nested_witness calls its function for the absent key {o}"))?;
                ck(spec::digest(&w) == root, || format!("nested witness of the absent {o}: digest"))?;
                ck(spec::lookup(&w, &[*o]) == Look::Absent, || format!("nested witness of the absent {o} is not a proof of absence: {w:?}"))?;
            }
            Some(inner) => {
                let im = t.get(o).ok_or("an outer key is missing")?;
                let ih = im.root_hash();
                type F = Box<dyn Fn(&M1) -> certified_vars::HashTree<'_>>;
                let mut fs: Vec<(String, F)> = vec![
                    ("keys".into(), Box::new(|m: &M1| m.witness_keys())),
                    ("full".into(), Box::new(|m: &M1| m.as_hash_tree())),
                    ("pruned".into(), Box::new(|m: &M1| certified_vars::HashTree::Pruned(m.root_hash()))),
                ];
                for i in 0..4u8 {
                    fs.push((format!("witness({i})"), Box::new(move |m: &M1| m.witness(&i))));
                    for j in i..4u8 {
                        fs.push((format!("keys {i}..{j}"), Box::new(move |m: &M1| m.witness_key_range::<u8, u8>(&i, &j))));
                        fs.push((format!("values {i}..{j}"), Box::new(move |m: &M1| m.witness_value_range::<u8, u8>(&i, &j))));
                    }
                }
                for (n, f) in &fs {
                    let chosen = spec::of(&f(im));
                    ck(spec::digest(&chosen) == ih, || format!("inner witness {n} of {o}: digest is not the inner root hash"))?;
                    let mut calls = 0;
                    let w = spec::of(&t.nested_witness(o, |m| {
                        calls += 1;
                        f(m)
                    }));
                    ck(calls == 1, || "nested_witness does not call its function once".into())?;
                    ck(spec::digest(&w) == root, || format!("nested witness {o}/{n}: digest is not the root hash (inner {inner:?})"))?;
                    ck(spec::lookup(&w, &[*o]) == Look::Found(&chosen), || format!("nested witness {o}/{n} does not contain the chosen inner witness: {w:?}"))?;
                    ck(spec::labels(&w) == vec![&[*o][..]], || format!("nested witness {o}/{n} shows other outer keys"))?;
                }
                for i in 0..4u8 {
                    let w = spec::of(&t.nested_witness(o, |m| m.witness(&i)));
                    let Look::Found(s) = spec::lookup(&w, &[*o]) else { return Err("outer lookup".into()) };
                    let got = spec::lookup(s, &[i]);
                    match inner.get(&i) {
                        Some(v) => ck(got == Look::Found(&T::V(v.to_be_bytes().to_vec())), || format!("{o}/{i} is {got:?}, expected {v}"))?,
                        None => ck(got == Look::Absent, || format!("{o}/{i} is {got:?}, expected a proof of absence"))?,
                    }
                }
            }
        }
    }
    Ok(())
}

fn fp2(b: &B2, obs: &mut Obs) {
    let mut f = Fp::new();
    for (k, v) in b {
        f.num(1000 + *k as u64);
        for (k, v) in v {
            f.num(*k as u64);
            f.num(*v as u64 % 2);
        }
    }
    obs.fp = f.0;
}

const KINDS2: i64 = 13;
/// Parameters: which, outer keys inserted first (count), then operations (kind * 100 + outer * 10 + inner).
pub fn nested2(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let which = p[0];
    let mut m = M2::new();
    let mut r: RbTree<u8, M1> = RbTree::new();
    let mut b = B2::new();
    let ops = &p[1..];
    for (n, x) in ops.iter().enumerate() {
        let (kind, o, i) = (x / 100, (x / 10 % 10) as u8, (x % 10) as u8);
        let v = n as u32 + 1;
        if kind == 10 {
            // A read between two changes.
            let _ = if which == 0 { m.root_hash() } else { r.root_hash() };
            continue;
        }
        if kind == 11 || kind == 12 {
            // A witness as the first read after a change, and then the root hash.
            let t = if which == 0 { m.as_tree() } else { &r };
            let w = if kind == 11 {
                spec::of(&t.nested_witness(&o, |m| m.witness(&i)))
            } else {
                spec::of(&t.witness(&o))
            };
            let root = t.root_hash();
            ck(spec::digest(&w) == root, || format!("a witness of {o}/{i} made before the first root hash does not digest to it"))?;
            let got = spec::lookup(&w, &[o]);
            match b.get(&o) {
                None => ck(got == Look::Absent, || format!("first read: {o} is {got:?}, expected a proof of absence"))?,
                Some(x) => {
                    let Look::Found(s) = got else { return Err(format!("first read: {o} is {got:?}")) };
                    if kind == 11 {
                        let got = spec::lookup(s, &[i]);
                        match x.get(&i) {
                            Some(v) => ck(got == Look::Found(&T::V(v.to_be_bytes().to_vec())), || format!("first read: {o}/{i} is {got:?}, expected {v}"))?,
                            None => ck(got == Look::Absent, || format!("first read: {o}/{i} is {got:?}, expected a proof of absence"))?,
                        }
                    } else {
                        ck(shows1(s, x), || format!("first read: {o} is {s:?}, expected {x:?}"))?;
                    }
                }
            }
            continue;
        }
        // The same change on the model.
        match kind {
            0 | 8 => {
                let e = b.entry(o).or_default();
                if kind == 0 {
                    e.insert(i, v);
                } else {
                    e.entry(i).or_insert(v);
                }
            }
            1 | 5 => {
                if let Some(e) = b.get_mut(&o) {
                    e.insert(i, v);
                }
            }
            2 => {
                if let Some(e) = b.get_mut(&o) {
                    e.remove(&i);
                }
            }
            3 => {
                b.remove(&o);
            }
            4 => {
                b.insert(o, [(i, v)].into_iter().collect());
            }
            6 => {
                if let Some(e) = b.get_mut(&o).and_then(|e| e.get_mut(&i)) {
                    *e = v;
                }
            }
            7 => {
                if let Some(e) = b.get_mut(&o) {
                    e.clear();
                }
            }
            9 => {
                // Move the inner map to another outer key.
                if let Some(e) = b.remove(&o) {
                    b.insert(i + 4, e);
                }
            }
            x => panic!("operation {x}"),
        }
        macro_rules! common {
            ($c:expr, $modify:expr, $remove:expr) => {
                match kind {
                    0 => {
                        $c.entry(o).or_default().insert(i, v);
                    }
                    8 => {
                        let e = $c.entry(o).or_insert_with(M1::new);
                        e.entry(i).or_insert(v);
                    }
                    1 => {
                        $modify(&mut $c, &mut |e: &mut M1| {
                            e.insert(i, v);
                        });
                    }
                    5 => {
                        let _ = $c.entry(o).and_modify(|e| {
                            let _ = e.root_hash();
                            e.insert(i, v);
                        });
                    }
                    2 => $modify(&mut $c, &mut |e: &mut M1| {
                        e.remove(&i);
                    }),
                    3 => {
                        $remove(&mut $c);
                    }
                    4 => {
                        $c.insert(o, [(i, v)].into_iter().collect());
                    }
                    6 => $modify(&mut $c, &mut |e: &mut M1| {
                        if let Some(e) = e.get_mut(&i) {
                            *e = v;
                        }
                    }),
                    7 => $modify(&mut $c, &mut |e: &mut M1| e.clear()),
                    9 => {
                        if let Some(e) = $remove(&mut $c) {
                            $c.insert(i + 4, e);
                        }
                    }
                    x => panic!("operation {x}"),
                }
            };
        }
        if which == 0 {
            let modify = |m: &mut M2, f: &mut dyn FnMut(&mut M1)| {
                if let Some(e) = m.get_mut(&o) {
                    f(e)
                }
            };
            common!(m, modify, |m: &mut M2| m.remove(&o));
        } else {
            let modify = |r: &mut RbTree<u8, M1>, f: &mut dyn FnMut(&mut M1)| {
                r.modify(&o, |e| f(e));
            };
            common!(r, modify, |r: &mut RbTree<u8, M1>| r.delete(&o).map(|e| e.1));
        }
    }
    obs.steps = ops.len() as u64;
    obs.trivial = b.is_empty();
    fp2(&b, obs);
    if which == 0 {
        check2(m.as_tree(), &b)
    } else {
        check2(&r, &b)
    }
}

type M3 = Map<u8, M2>;
/// Three levels. Operations: kind * 1000 + a * 100 + b * 10 + c.
pub fn nested3(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let mut m = M3::new();
    let mut w: BTreeMap<u8, B2> = BTreeMap::new();
    for (n, x) in p.iter().enumerate() {
        let (kind, a, b, c) = (x / 1000, (x / 100 % 10) as u8, (x / 10 % 10) as u8, (x % 10) as u8);
        let v = n as u32 + 1;
        match kind {
            0 => {
                m.entry(a).or_default().entry(b).or_default().insert(c, v);
                w.entry(a).or_default().entry(b).or_default().insert(c, v);
            }
            1 => {
                if let Some(x) = m.get_mut(&a).and_then(|m| m.get_mut(&b)).and_then(|m| m.get_mut(&c)) {
                    *x = v;
                }
                if let Some(x) = w.get_mut(&a).and_then(|m| m.get_mut(&b)).and_then(|m| m.get_mut(&c)) {
                    *x = v;
                }
            }
            2 => {
                if let Some(x) = m.get_mut(&a).and_then(|m| m.get_mut(&b)) {
                    x.remove(&c);
                }
                if let Some(x) = w.get_mut(&a).and_then(|m| m.get_mut(&b)) {
                    x.remove(&c);
                }
            }
            3 => {
                if let Some(x) = m.get_mut(&a) {
                    x.remove(&b);
                }
                if let Some(x) = w.get_mut(&a) {
                    x.remove(&b);
                }
            }
            4 => {
                m.remove(&a);
                w.remove(&a);
            }
            5 => {
                let _ = m.root_hash();
            }
            6 => {
                let t = spec::of(&m.as_tree().nested_witness(&a, |m| m.as_tree().nested_witness(&b, |m| m.witness(&c))));
                ck(spec::digest(&t) == m.root_hash(), || format!("a witness of {a}/{b}/{c} made before the first root hash does not digest to it"))?;
            }
            x => panic!("operation {x}"),
        }
    }
    obs.steps = p.len() as u64;
    obs.trivial = w.is_empty();
    let mut f = Fp::new();
    for (k, v) in &w {
        f.num(5000 + *k as u64);
        for (k, v) in v {
            f.num(1000 + *k as u64);
            for k in v.keys() {
                f.num(*k as u64);
            }
        }
    }
    obs.fp = f.0;
    let root = m.root_hash();
    let full = spec::of(&m.as_hash_tree());
    ck(spec::digest(&full) == root, || "the root hash is not the digest of the full tree".into())?;
    let fl = spec::flat(&full);
    ck(fl.len() == w.len(), || "number of outer entries".into())?;
    for (x, (k, v)) in fl.iter().zip(&w) {
        match x {
            T::L(l, s) if l == &[*k] => full2(s, v)?,
            x => return Err(format!("{x:?} for the outer key {k}")),
        }
    }
    for a in 0..3u8 {
        for b in 0..3u8 {
            for c in 0..3u8 {
                let t = spec::of(&m.as_tree().nested_witness(&a, |m| m.as_tree().nested_witness(&b, |m| m.witness(&c))));
                ck(spec::digest(&t) == root, || format!("witness {a}/{b}/{c}: digest"))?;
                let l1 = spec::lookup(&t, &[a]);
                let Some(w1) = w.get(&a) else {
                    ck(l1 == Look::Absent, || format!("{a}: {l1:?}"))?;
                    continue;
                };
                let Look::Found(t1) = l1 else { return Err(format!("{a}: {l1:?}")) };
                let l2 = spec::lookup(t1, &[b]);
                let Some(w2) = w1.get(&b) else {
                    ck(l2 == Look::Absent, || format!("{a}/{b}: {l2:?}"))?;
                    continue;
                };
                let Look::Found(t2) = l2 else { return Err(format!("{a}/{b}: {l2:?}")) };
                let l3 = spec::lookup(t2, &[c]);
                match w2.get(&c) {
                    None => ck(l3 == Look::Absent, || format!("{a}/{b}/{c}: {l3:?}"))?,
                    Some(v) => {
                        ck(l3 == Look::Found(&T::V(v.to_be_bytes().to_vec())), || format!("{a}/{b}/{c}: {l3:?}, expected {v}"))?;
                        ck(spec::all_labels(&t) == vec![&[a][..], &[b], &[c]], || "shows other labels".into())?;
                        ck(spec::leaves(&t).len() == 1, || "shows other values".into())?;
                    }
                }
            }
        }
    }
    Ok(())
}

fn chain(v: &[u32]) -> [u8; 32] {
    v.iter().fold([0; 32], |h, x| spec::sha(&[&h, &spec::leaf_digest(&x.to_be_bytes())]))
}

/// Maps of sequences. Operations: kind * 10 + key.
pub fn mapseq(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let mut m: Map<u8, Seq<u32>> = Map::new();
    let mut w: BTreeMap<u8, Vec<u32>> = BTreeMap::new();
    for (n, x) in p.iter().enumerate() {
        let (kind, k) = (x / 10, (x % 10) as u8);
        let v = n as u32;
        match kind {
            0 => {
                m.append_deep(k, v);
                w.entry(k).or_default().push(v);
            }
            1 => {
                if let Some(s) = m.get_mut(&k) {
                    s.append(v);
                    s.extend([v, v + 100]);
                }
                if let Some(s) = w.get_mut(&k) {
                    s.extend([v, v, v + 100]);
                }
            }
            2 => {
                m.entry(k).or_default().append(v);
                w.entry(k).or_default().push(v);
            }
            3 => {
                let g = m.remove(&k);
                ck(g.map(|s| s.as_vec().clone()) == w.remove(&k), || "remove returns another sequence".into())?;
            }
            4 => {
                if let Some(s) = m.get_mut(&k) {
                    s.clear();
                }
                if let Some(s) = w.get_mut(&k) {
                    s.clear();
                }
            }
            5 => {
                m.insert(k, Seq::new());
                w.insert(k, vec![]);
            }
            7 => {
                let t = spec::of(&m.witness(&k));
                ck(spec::digest(&t) == m.root_hash(), || format!("a witness of {k} made before the first root hash does not digest to it"))?;
                if let Some(v) = w.get(&k) {
                    ck(spec::lookup(&t, &[k]) == Look::Found(&T::P(chain(v))), || format!("first read: the witness of {k} shows something else"))?;
                }
            }
            _ => {
                let _ = m.root_hash();
            }
        }
        for k in 0..5u8 {
            let l = w.get(&k).map(|s| s.len()).unwrap_or(0);
            ck(m.len_deep(&k) == l, || format!("len_deep({k}) is {}, expected {l}", m.len_deep(&k)))?;
        }
    }
    obs.steps = p.len() as u64;
    obs.trivial = w.is_empty();
    let mut f = Fp::new();
    for (k, v) in &w {
        f.num(*k as u64 + 1000);
        f.num(v.len() as u64);
    }
    obs.fp = f.0;
    let root = m.root_hash();
    let full = spec::of(&m.as_hash_tree());
    ck(spec::digest(&full) == root, || "the root hash is not the digest of the full tree".into())?;
    let want: Vec<T> = w.iter().map(|(k, v)| spec::l(&[*k], T::P(chain(v)))).collect();
    ck(spec::flat(&full).into_iter().cloned().collect::<Vec<_>>() == want, || format!("the full tree is {full:?}, expected {want:?}"))?;
    for k in 0..5u8 {
        let t = spec::of(&m.witness(&k));
        ck(spec::digest(&t) == root, || format!("witness({k}): digest"))?;
        let l = spec::lookup(&t, &[k]);
        match w.get(&k) {
            Some(v) => {
                ck(l == Look::Found(&T::P(chain(v))), || format!("{k}: {l:?}"))?;
                ck(m.get(&k).map(|s| s.as_vec()) == Some(v), || format!("items of {k}"))?;
            }
            None => ck(l == Look::Absent, || format!("{k}: {l:?}"))?,
        }
    }
    Ok(())
}

/// Maps nested to any depth.
trait Level: AsHashTree + Default + 'static {
    fn put(&mut self, path: &[u8], v: u32);
    fn set(&mut self, path: &[u8], v: u32);
    fn take(&mut self, path: &[u8]);
    fn empty(&mut self, path: &[u8]);
    fn proof(&self, path: &[u8]) -> certified_vars::HashTree<'_>;
}
#[derive(Default)]
struct Val(u32);
impl AsHashTree for Val {
    fn root_hash(&self) -> certified_vars::Hash {
        self.0.root_hash()
    }
    fn as_hash_tree(&self) -> certified_vars::HashTree<'_> {
        self.0.as_hash_tree()
    }
}
impl Level for Val {
    fn put(&mut self, _: &[u8], v: u32) {
        self.0 = v;
    }
    fn set(&mut self, _: &[u8], v: u32) {
        self.0 = v;
    }
    fn take(&mut self, _: &[u8]) {}
    fn empty(&mut self, _: &[u8]) {}
    fn proof(&self, _: &[u8]) -> certified_vars::HashTree<'_> {
        self.as_hash_tree()
    }
}
impl<L: Level> Level for Map<u8, L> {
    fn put(&mut self, path: &[u8], v: u32) {
        self.entry(path[0]).or_default().put(&path[1..], v)
    }
    fn set(&mut self, path: &[u8], v: u32) {
        if let Some(x) = self.get_mut(&path[0]) {
            x.set(&path[1..], v)
        }
    }
    fn take(&mut self, path: &[u8]) {
        if path.len() == 1 {
            self.remove(&path[0]);
        } else if let Some(x) = self.get_mut(&path[0]) {
            x.take(&path[1..])
        }
    }
    fn empty(&mut self, path: &[u8]) {
        if path.is_empty() {
            self.clear();
        } else if let Some(x) = self.get_mut(&path[0]) {
            x.empty(&path[1..])
        }
    }
    fn proof(&self, path: &[u8]) -> certified_vars::HashTree<'_> {
        self.as_tree().nested_witness(&path[0], |x| x.proof(&path[1..]))
    }
}

#[derive(Debug)]
enum Dir {
    Val(u32),
    Map(BTreeMap<u8, Dir>),
}
impl Dir {
    fn new(depth: usize) -> Dir {
        if depth == 0 {
            Dir::Val(0)
        } else {
            Dir::Map(BTreeMap::new())
        }
    }
    fn put(&mut self, path: &[u8], v: u32) {
        match self {
            Dir::Val(x) => *x = v,
            Dir::Map(m) => m.entry(path[0]).or_insert_with(|| Dir::new(path.len() - 1)).put(&path[1..], v),
        }
    }
    fn at(&mut self, path: &[u8]) -> Option<&mut Dir> {
        match self {
            d if path.is_empty() => Some(d),
            Dir::Val(_) => None,
            Dir::Map(m) => m.get_mut(&path[0])?.at(&path[1..]),
        }
    }
    fn full(&self, t: &T) -> Result<(), String> {
        match self {
            Dir::Val(v) => ck(*t == T::V(v.to_be_bytes().to_vec()), || format!("{t:?}, expected {v}")),
            Dir::Map(m) => {
                let f = spec::flat(t);
                ck(f.len() == m.len(), || format!("{} entries, expected {}", f.len(), m.len()))?;
                for (x, (k, d)) in f.iter().zip(m) {
                    match x {
                        T::L(l, s) if l == &[*k] => d.full(s).map_err(|e| format!("in {k}: {e}"))?,
                        x => return Err(format!("{x:?} for the key {k}")),
                    }
                }
                Ok(())
            }
        }
    }
    fn proof(&self, t: &T, path: &[u8]) -> Result<(), String> {
        match self {
            Dir::Val(v) => ck(*t == T::V(v.to_be_bytes().to_vec()), || format!("{t:?}, expected {v}")),
            Dir::Map(m) => match (m.get(&path[0]), spec::lookup(t, &path[..1])) {
                (None, Look::Absent) => Ok(()),
                (Some(d), Look::Found(x)) => {
                    ck(spec::labels(t) == vec![&path[..1]], || format!("{path:?}: other keys are shown"))?;
                    d.proof(x, &path[1..])
                }
                (a, l) => Err(format!("{path:?} is {l:?}, expected {a:?}")),
            },
        }
    }
}

type M4 = Map<u8, Map<u8, Map<u8, Map<u8, Val>>>>;
type M8 = Map<u8, Map<u8, Map<u8, Map<u8, M4>>>>;
type M12 = Map<u8, Map<u8, Map<u8, Map<u8, M8>>>>;

fn deep_t<L: Level>(depth: usize, ops: &[i64], obs: &mut Obs) -> Result<(), String> {
    let paths: Vec<Vec<u8>> = [0u32, 1, 1 << (depth - 1), 1 << (depth / 2), u32::MAX, 0x5555_5555]
        .iter()
        .map(|x| (0..depth).rev().map(|b| (x >> b & 1) as u8).collect())
        .collect();
    let mut l = L::default();
    let mut d = Dir::new(depth);
    for (n, o) in ops.iter().enumerate() {
        let v = n as u32 + 1;
        let (kind, x, lv) = (o / 1000, (o / 100 % 10) as usize, (o % 100) as usize);
        if kind == 4 {
            let _ = l.root_hash();
            continue;
        }
        let p = &paths[x];
        match kind {
            0 => {
                l.put(p, v);
                d.put(p, v);
            }
            1 => {
                l.set(p, v);
                if let Some(Dir::Val(x)) = d.at(p) {
                    *x = v;
                }
            }
            2 => {
                l.take(&p[..lv]);
                if let Some(Dir::Map(m)) = d.at(&p[..lv - 1]) {
                    m.remove(&p[lv - 1]);
                }
            }
            _ => {
                l.empty(&p[..lv]);
                if let Some(Dir::Map(m)) = d.at(&p[..lv]) {
                    m.clear();
                }
            }
        }
    }
    obs.steps = ops.len() as u64;
    let mut f = Fp::new();
    f.num(depth as u64);
    f.add(format!("{d:?}").as_bytes());
    obs.fp = f.0;
    obs.trivial = matches!(&d, Dir::Map(m) if m.is_empty());
    let root = l.root_hash();
    let full = spec::of(&l.as_hash_tree());
    ck(spec::digest(&full) == root, || "the root hash is not the digest of the full tree".into())?;
    d.full(&full)?;
    for p in &paths {
        let t = spec::of(&l.proof(p));
        ck(spec::digest(&t) == root, || format!("nested witness {p:?}: digest"))?;
        d.proof(&t, p)?;
    }
    Ok(())
}

/// Deeply nested maps. Parameters: depth, operations (kind * 1000 + path * 100 + level).
pub fn nestdeep(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    match p[0] {
        4 => deep_t::<M4>(4, &p[1..], obs),
        5 => deep_t::<Map<u8, M4>>(5, &p[1..], obs),
        6 => deep_t::<Map<u8, Map<u8, M4>>>(6, &p[1..], obs),
        8 => deep_t::<M8>(8, &p[1..], obs),
        9 => deep_t::<Map<u8, M8>>(9, &p[1..], obs),
        12 => deep_t::<M12>(12, &p[1..], obs),
        _ => deep_t::<Map<u8, Map<u8, Map<u8, Map<u8, Map<u8, M12>>>>>>(17, &p[1..], obs),
    }
}

/// Big maps of big maps. Parameters: pattern, outer size, inner size, change, read before it,
/// positions of the outer and the inner key.
pub fn nestbig(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    type I = Map<u16, u16>;
    let (n, k) = (p[1], p[2]);
    let mut r: RbTree<u16, I> = RbTree::new();
    let mut w: BTreeMap<u16, BTreeMap<u16, u16>> = BTreeMap::new();
    for o in crate::hist::pattern(p[0], n) {
        let i: Vec<(u16, u16)> = crate::hist::pattern((p[0] + o) % 8, k).into_iter().map(|i| (2 * i as u16 + 1, (o * 7 + i) as u16)).collect();
        w.insert(2 * o as u16 + 1, i.iter().copied().collect());
        r.insert(2 * o as u16 + 1, i.into_iter().collect());
    }
    if p[4] == 1 {
        let _ = r.root_hash();
    }
    let (o, i) = (2 * p[5] as u16 + 1, 2 * p[6] as u16 + 1);
    let other = (o + n as u16 / 2 * 2) % (2 * n as u16);
    let bad = |x: &str| Err(x.to_string());
    match p[3] {
        0 => {
            r.modify(&o, |m| m.insert(i, 60000));
            w.get_mut(&o).ok_or("o")?.insert(i, 60000);
        }
        1 => {
            r.modify(&o, |m| m.remove(&i));
            w.get_mut(&o).ok_or("o")?.remove(&i);
        }
        2 => {
            r.modify(&o, |m| m.insert(i + 1, 60001));
            w.get_mut(&o).ok_or("o")?.insert(i + 1, 60001);
        }
        3 => {
            if r.delete(&o).map(|e| e.1.len()) != Some(k as usize) {
                return bad("the removed inner map is another one");
            }
            w.remove(&o);
        }
        4 => {
            let e = r.delete(&o).ok_or("outer key")?;
            r.insert(o + 1, e.1);
            let e = w.remove(&o).ok_or("o")?;
            w.insert(o + 1, e);
        }
        5 => {
            for x in [o, other] {
                let m = r.entry(x).or_default();
                m.entry(i).and_modify(|v| *v += 1).or_insert(4);
                if let Some(v) = m.get_mut(&i) {
                    *v += 1;
                }
                *w.entry(x).or_default().entry(i).and_modify(|v| *v += 1).or_insert(4) += 1;
            }
        }
        _ => {
            r.modify(&o, |m| m.clear());
            w.get_mut(&o).ok_or("o")?.clear();
        }
    }
    obs.steps = n as u64 * k as u64;
    let mut f = Fp::new();
    f.add(format!("{p:?}").as_bytes());
    obs.fp = f.0;
    let root = r.root_hash();
    let full = spec::of(&r.as_hash_tree());
    ck(spec::digest(&full) == root, || "the root hash is not the digest of the full tree".into())?;
    let shows = |t: &T, m: &BTreeMap<u16, u16>| {
        spec::flat(t).into_iter().cloned().collect::<Vec<_>>() == m.iter().map(|(k, v)| spec::l(&k.to_be_bytes(), T::V(v.to_be_bytes().to_vec()))).collect::<Vec<_>>()
    };
    let fl = spec::flat(&full);
    ck(fl.len() == w.len(), || "number of outer entries".into())?;
    for (x, (k, v)) in fl.iter().zip(&w) {
        match x {
            T::L(l, s) if l[..] == k.to_be_bytes() => ck(shows(s, v), || format!("contents of {k}"))?,
            x => return Err(format!("{x:?} for the outer key {k}")),
        }
    }
    let last = 2 * n as u16 + 1;
    for x in [0, 1, 2, o - 1, o, o + 1, o + 2, other, last - 2, last - 1, last] {
        for y in [0, 1, i - 1, i, i + 1, i + 2, 2 * k as u16 - 1, 2 * k as u16] {
            let t = spec::of(&r.nested_witness(&x, |m| m.witness(&y)));
            ck(spec::digest(&t) == root, || format!("nested witness {x}/{y}: digest"))?;
            match (w.get(&x), spec::lookup(&t, &x.to_be_bytes())) {
                (None, Look::Absent) => (),
                (Some(m), Look::Found(s)) => match (m.get(&y), spec::lookup(s, &y.to_be_bytes())) {
                    (None, Look::Absent) => (),
                    (Some(v), Look::Found(T::V(b))) if b[..] == v.to_be_bytes() => {
                        ck(spec::all_labels(&t) == vec![&x.to_be_bytes()[..], &y.to_be_bytes()], || "shows other labels".into())?;
                        ck(spec::leaves(&t).len() == 1, || "shows other values".into())?;
                    }
                    (a, l) => return Err(format!("{x}/{y} is {l:?}, expected {a:?}")),
                },
                (a, l) => return Err(format!("{x} is {l:?}, expected {a:?}")),
            }
        }
    }
    Ok(())
}

pub fn c07(ctx: &Ctx) {
    wraps(ctx);
    let si = ctx.scen("nested2");
    let mut alpha = vec![];
    for kind in 0..KINDS2 {
        for o in [1, 0, 2] {
            for i in [0, 1] {
                if kind == 10 && (o, i) != (1, 0) || (kind == 3 || kind == 7 || kind == 12) && i == 1 {
                    continue;
                }
                alpha.push(kind * 100 + o * 10 + i);
            }
        }
    }
    let d = ctx.pick(3, 4);
    for which in 0..2 {
        ctx.sequences(si, &[which], &alpha, d);
    }
    ctx.note(format!("two levels: all histories of length <= {d} over {} operations, every inner witness of every outer key", alpha.len()));
    // Bigger outer maps: every inner change at every position, then every other.
    let nmax = ctx.pick(7, 9);
    let mut items = vec![];
    for n in 1..=nmax {
        for pat in 0..crate::hist::PATTERNS {
            let ks = crate::hist::pattern(pat, n);
            let pre: Vec<i64> = ks.iter().map(|k| 400 + k * 10 + 1).collect();
            for a in 0..n {
                for b in 0..n {
                    for (x, y) in [(100, 100), (101, 200), (600, 300), (300, 100), (700, 800), (200, 600), (500, 400), (0, 900)] {
                        for rd in 0..4 {
                            let mut p = vec![(n + pat) % 2];
                            p.extend(&pre);
                            p.push(x + a * 10 + 1);
                            if rd == 1 || rd == 3 {
                                p.push(1000);
                            }
                            p.push(y + b * 10 + 1);
                            if rd >= 2 {
                                // The first read is a nested witness of either key.
                                p.push(1100 + [a, b][(n as usize + rd as usize) % 2] * 10 + 1);
                            }
                            items.push(p);
                        }
                    }
                }
            }
        }
    }
    ctx.par_items(&items, |p| {
        ctx.run(si, p);
    });
    ctx.note(format!("two levels, up to {nmax} outer keys: {} cases of two inner or outer changes at every pair of positions, with and without a read in between", items.len()));
    let s3 = ctx.scen("nested3");
    let mut alpha = vec![5000, 6000, 6011, 6101];
    for a in 0..2 {
        for b in 0..2 {
            for c in 0..2 {
                for k in [0, 1, 2] {
                    alpha.push(k * 1000 + a * 100 + b * 10 + c);
                }
            }
            alpha.push(3000 + a * 100 + b * 10);
        }
        alpha.push(4000 + a * 100);
    }
    let d = ctx.pick(3, 5);
    ctx.sequences(s3, &[], &alpha, d);
    ctx.note(format!("three levels: all histories of length <= {d} over {} operations", alpha.len()));
    let ss = ctx.scen("mapseq");
    let alpha: Vec<i64> = (0..6).flat_map(|k| [1, 3, 2].iter().map(move |i| k * 10 + i)).chain([60, 71, 72, 74]).collect();
    let d = ctx.pick(4, 5);
    ctx.sequences(ss, &[], &alpha, d);
    ctx.note(format!("maps of sequences: all histories of length <= {d} over {} operations", alpha.len()));
    let sd = ctx.scen("nestdeep");
    let mut total = 0;
    for depth in [4usize, 5, 6, 8, 9, 12, 17] {
        let np = if depth <= 8 { 4 } else { 3 };
        let mut alpha = vec![4000];
        for x in 0..np {
            alpha.push(x * 100);
            alpha.push(1000 + x * 100);
            for lv in [1, depth as i64 / 2, depth as i64 - 1, depth as i64] {
                alpha.push(2000 + x * 100 + lv);
            }
            alpha.push(3000 + x * 100 + depth as i64 - 1);
        }
        let mut v = vec![];
        // Everything is there, then every pair (triple) of changes.
        let pre: Vec<i64> = vec![0, 100, 200, 300, 400, 500];
        for a in &alpha {
            for b in &alpha {
                for c in if ctx.quick() { &alpha[..2] } else { &alpha[..] } {
                    for first in [&pre[..], &pre[..2], &[]] {
                        let mut p = vec![depth as i64];
                        p.extend(first);
                        p.extend([*a, *c, *b]);
                        v.push(p);
                    }
                }
            }
        }
        total += v.len();
        ctx.par_items(&v, |p| {
            ctx.run(sd, p);
        });
    }
    ctx.note(format!("4 to 17 levels: {total} histories of changes on six paths, every level of removal"));
    let sb = ctx.scen("nestbig");
    let mut v = vec![];
    for (n, k) in ctx.pick(vec![(16i64, 1i64), (17, 17), (33, 5), (64, 3), (65, 20), (3, 100), (100, 7), (1, 300), (256, 2)], vec![(16, 1), (16, 16), (17, 17), (33, 5), (33, 40), (64, 3), (65, 20), (3, 100), (100, 7), (100, 100), (1, 300), (1, 5000), (256, 2), (256, 256), (1000, 3)]) {
        for kind in 0..7 {
            for rd in [0, 1] {
                for o in 0..n {
                    let step = (n * k / 100).max(1);
                    for i in (0..k).filter(|i| (i + o) % step == 0 || n < 4 && *i + 1 == k) {
                        v.push(vec![(o + i) % 8, n, k, kind, rd, o, i]);
                    }
                }
            }
        }
    }
    ctx.par_items(&v, |p| {
        ctx.run(sb, p);
    });
    ctx.note(format!("{} changes in maps of up to 256 maps of up to 300 entries", v.len()));
}

// ---- Other things inside maps: behind pointers, trees, pages, groups.

use certified_vars::{Group, GroupBuilder};
use certified_vars::{HashTree, Paged};
use std::rc::Rc;
use std::sync::Arc;

type Paths = Vec<(Vec<Vec<u8>>, T)>;

/// Everything a tree shows: the labels on the way to each leaf.
fn paths(t: &T) -> Paths {
    fn go(t: &T, at: &mut Vec<Vec<u8>>, out: &mut Paths) {
        match t {
            T::E => (),
            T::F(a, b) => {
                go(a, at, out);
                go(b, at, out);
            }
            T::L(l, s) => {
                at.push(l.clone());
                go(s, at, out);
                at.pop();
            }
            x => out.push((at.clone(), x.clone())),
        }
    }
    let mut out = vec![];
    go(t, &mut vec![], &mut out);
    out
}

fn under(l: &[u8], p: Paths) -> Paths {
    p.into_iter().map(|(mut x, t)| {
        x.insert(0, l.to_vec());
        (x, t)
    }).collect()
}

/// Something that can be a value, in a number of versions.
trait In: AsHashTree + 'static {
    fn mk(i: i64) -> Self;
    /// What its full tree shows.
    fn want(i: i64) -> Paths;
    /// Changes version `i` into version `j` in place.
    fn turn(&mut self, j: i64);
}
impl In for u32 {
    fn mk(i: i64) -> u32 {
        i as u32 * 7
    }
    fn want(i: i64) -> Paths {
        vec![(vec![], T::V((i as u32 * 7).to_be_bytes().to_vec()))]
    }
    fn turn(&mut self, j: i64) {
        *self = Self::mk(j)
    }
}
impl In for String {
    fn mk(i: i64) -> String {
        "x".repeat(i as usize % 5)
    }
    fn want(i: i64) -> Paths {
        vec![(vec![], T::V(Self::mk(i).into_bytes()))]
    }
    fn turn(&mut self, j: i64) {
        self.clear();
        self.push_str(&Self::mk(j));
    }
}
/// Versions of a map: number of entries and the versions of those.
fn size(i: i64) -> i64 {
    [2, 0, 1, 3, 5][i as usize % 5]
}
impl<X: In> In for Map<u8, X> {
    fn mk(i: i64) -> Self {
        (0..size(i)).rev().map(|k| (k as u8 * 3, X::mk(i + k))).collect()
    }
    fn want(i: i64) -> Paths {
        (0..size(i)).flat_map(|k| under(&[k as u8 * 3], X::want(i + k))).collect()
    }
    fn turn(&mut self, j: i64) {
        for k in 0..5 {
            if k >= size(j) {
                self.remove(&(k as u8 * 3));
            } else if let Some(x) = self.get_mut(&(k as u8 * 3)) {
                x.turn(j + k);
            } else {
                self.insert(k as u8 * 3, X::mk(j + k));
            }
        }
    }
}
impl<X: In> In for RbTree<u8, X> {
    fn mk(i: i64) -> Self {
        let mut t = RbTree::new();
        for k in 0..size(i) {
            t.insert(k as u8 * 3, X::mk(i + k));
        }
        t
    }
    fn want(i: i64) -> Paths {
        Map::<u8, X>::want(i)
    }
    fn turn(&mut self, j: i64) {
        for k in 0..5 {
            if k >= size(j) {
                self.delete(&(k as u8 * 3));
            } else {
                let e = self.entry(k as u8 * 3);
                e.or_insert_with(|| X::mk(0)).turn(j + k);
            }
        }
    }
}
impl<X: In + Clone> In for Seq<X>
where
    X: crate::seq::IT,
{
    fn mk(i: i64) -> Self {
        (0..size(i)).map(|k| <X as crate::seq::IT>::mk(i + k)).collect()
    }
    fn want(i: i64) -> Paths {
        let v: Vec<X> = (0..size(i)).map(|k| <X as crate::seq::IT>::mk(i + k)).collect();
        vec![(vec![], T::P(crate::seq::chain(&v)))]
    }
    fn turn(&mut self, j: i64) {
        self.clear();
        self.extend((0..size(j)).map(|k| <X as crate::seq::IT>::mk(j + k)));
    }
}
impl In for Paged<u8, u32, 2> {
    fn mk(i: i64) -> Self {
        let mut p = Paged::new();
        for x in 0..size(i) {
            p.insert(7, (i + x) as u32);
        }
        p
    }
    fn want(i: i64) -> Paths {
        let v: Vec<u32> = (0..size(i)).map(|x| (i + x) as u32).collect();
        v.chunks(2).enumerate().map(|(p, c)| (vec![vec![7, 0, 0, 0, p as u8]], T::P(crate::seq::chain(c)))).collect()
    }
    fn turn(&mut self, j: i64) {
        *self = Self::mk(j)
    }
}
struct Leaf1<X>(X);
struct Leaf2<X>(X);
impl<X: AsHashTree> AsHashTree for Leaf1<X> {
    fn as_hash_tree(&self) -> HashTree<'_> {
        self.0.as_hash_tree()
    }
}
impl<X: AsHashTree> AsHashTree for Leaf2<X> {
    fn root_hash(&self) -> certified_vars::Hash {
        self.0.root_hash()
    }
    fn as_hash_tree(&self) -> HashTree<'_> {
        self.0.as_hash_tree()
    }
}
struct Gr<X>(Group, std::marker::PhantomData<X>);
impl<X: AsHashTree> AsHashTree for Gr<X> {
    fn root_hash(&self) -> certified_vars::Hash {
        self.0.root_hash()
    }
    fn as_hash_tree(&self) -> HashTree<'_> {
        self.0.as_hash_tree()
    }
}
impl<X: In> In for Gr<X> {
    fn mk(i: i64) -> Self {
        let inner = GroupBuilder::new().insert(["q"], Leaf1(X::mk(i + 2))).build();
        Gr(
            GroupBuilder::new().insert(["b", "y"], Leaf1(X::mk(i))).insert(["a"], Leaf2(X::mk(i + 1))).insert(["b", "g"], inner).build(),
            std::marker::PhantomData,
        )
    }
    fn want(i: i64) -> Paths {
        let mut p = under(b"a", X::want(i + 1));
        p.extend(under(b"b", under(b"g", under(b"q", X::want(i + 2)))));
        p.extend(under(b"b", under(b"y", X::want(i))));
        p
    }
    fn turn(&mut self, j: i64) {
        self.0.get_mut::<Leaf1<X>>().0.turn(j);
        self.0.get_mut::<Leaf2<X>>().0.turn(j + 1);
        self.0.get_mut::<Group>().get_mut::<Leaf1<X>>().0.turn(j + 2);
    }
}
impl<X: In> In for Box<X> {
    fn mk(i: i64) -> Self {
        Box::new(X::mk(i))
    }
    fn want(i: i64) -> Paths {
        X::want(i)
    }
    fn turn(&mut self, j: i64) {
        (**self).turn(j)
    }
}
macro_rules! shared {
    ($($p:ident)*) => {$(
        impl<X: In> In for $p<X> {
            fn mk(i: i64) -> Self {
                $p::new(X::mk(i))
            }
            fn want(i: i64) -> Paths {
                X::want(i)
            }
            fn turn(&mut self, j: i64) {
                match $p::get_mut(self) {
                    Some(x) => x.turn(j),
                    None => *self = Self::mk(j),
                }
            }
        }
    )*};
}
shared!(Rc Arc);

fn wrap_t<X: In>(n: i64, pat: i64, ops: &[i64]) -> Result<(), String> {
    let key = |k: i64| (k * 2 + 1) as u8;
    let mut m: Map<u8, X> = Map::new();
    let mut have: BTreeMap<i64, i64> = BTreeMap::new();
    for k in crate::hist::pattern(pat, n) {
        m.insert(key(k), X::mk(k));
        have.insert(k, k);
    }
    let alone = |x: &X, i: i64| -> Result<(), String> {
        let t = spec::of(&x.as_hash_tree());
        ck(paths(&t) == X::want(i), || format!("version {i} shows {:?}, expected {:?}", paths(&t), X::want(i)))?;
        ck(spec::digest(&t) == x.root_hash(), || format!("version {i}: the root hash is not the digest of the tree"))
    };
    let check = |m: &Map<u8, X>, have: &BTreeMap<i64, i64>, first: i64| -> Result<(), String> {
        // Witnesses before anything else is read.
        let mut ks: Vec<i64> = (0..n).collect();
        ks.rotate_left((first % n.max(1)) as usize);
        let ws: Vec<(i64, T)> = ks.iter().map(|k| (*k, spec::of(&m.witness(&key(*k))))).collect();
        let root = m.root_hash();
        for (k, w) in &ws {
            ck(spec::digest(w) == root, || format!("the witness of {} does not verify", key(*k)))?;
            match have.get(k) {
                Some(i) => {
                    let Look::Found(s) = spec::lookup(w, &[key(*k)]) else { return Err(format!("{} is not found in its witness", key(*k))) };
                    ck(paths(s) == X::want(*i), || format!("the witness of {} shows {:?}, expected {:?}", key(*k), paths(s), X::want(*i)))?;
                    alone(m.get(&key(*k)).ok_or("a key is missing")?, *i)?;
                    let ih = m.get(&key(*k)).unwrap().root_hash();
                    let w = spec::of(&m.as_tree().nested_witness(&key(*k), |x| HashTree::Pruned(x.root_hash())));
                    ck(spec::digest(&w) == root && spec::lookup(&w, &[key(*k)]) == Look::Found(&T::P(ih)), || format!("the nested witness of {}", key(*k)))?;
                }
                None => ck(spec::lookup(w, &[key(*k)]) == Look::Absent && spec::leaves(w).is_empty(), || format!("the absence of {} is not proved", key(*k)))?,
            }
        }
        let want: Paths = have.iter().flat_map(|(k, i)| under(&[key(*k)], X::want(*i))).collect();
        let full = spec::of(&m.as_hash_tree());
        ck(spec::digest(&full) == root && paths(&full) == want, || format!("the full tree shows {:?}, expected {want:?}", paths(&full)))?;
        for a in 0..n {
            for b in a..n {
                let w = spec::of(&m.witness_value_range::<u8, u8>(&key(a), &key(b)));
                ck(spec::digest(&w) == root, || format!("values {a}..={b}: does not verify"))?;
                for (k, i) in have.range(a..=b) {
                    let Look::Found(s) = spec::lookup(&w, &[key(*k)]) else { return Err(format!("values {a}..={b}: {k} is not found")) };
                    ck(paths(s) == X::want(*i), || format!("values {a}..={b}: {k} shows {:?}, expected {:?}", paths(s), X::want(*i)))?;
                }
                let w = spec::of(&m.witness_key_range::<u8, u8>(&key(a), &key(b)));
                ck(spec::digest(&w) == root && spec::leaves(&w).is_empty(), || format!("keys {a}..={b}"))?;
            }
        }
        Ok(())
    };
    check(&m, &have, 0)?;
    for (step, o) in ops.iter().enumerate() {
        let (kind, k) = (o / 100, o % 100);
        let j = have.get(&k).copied().unwrap_or(0) + 1 + step as i64;
        match kind {
            0 => {
                m.insert(key(k), X::mk(j));
                have.insert(k, j);
            }
            1 => {
                m.remove(&key(k));
                have.remove(&k);
            }
            2 => {
                if let Some(x) = m.get_mut(&key(k)) {
                    x.turn(j);
                    have.insert(k, j);
                }
            }
            3 => {
                m.entry(key(k)).or_insert_with(|| X::mk(0)).turn(j);
                have.insert(k, j);
            }
            _ => {
                if let Some(x) = m.get_mut(&key(k)) {
                    x.turn(j);
                    // Back again.
                    x.turn(have[&k]);
                }
            }
        }
        if step + 1 < ops.len() && k % 2 == 0 {
            continue;
        }
        check(&m, &have, k)?;
    }
    Ok(())
}

pub const NWRAPS: i64 = 20;
/// Parameters: kind of value, number of keys, order of insertion, changes (kind * 100 + key).
pub fn nestwrap(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    type M = Map<u8, u32>;
    let f = match p[0] {
        0 => wrap_t::<Box<M>>,
        1 => wrap_t::<Rc<M>>,
        2 => wrap_t::<Arc<M>>,
        3 => wrap_t::<Box<Box<M>>>,
        4 => wrap_t::<Rc<Arc<Box<M>>>>,
        5 => wrap_t::<RbTree<u8, u32>>,
        6 => wrap_t::<Box<RbTree<u8, String>>>,
        7 => wrap_t::<Map<u8, Box<u32>>>,
        8 => wrap_t::<Map<u8, Rc<M>>>,
        9 => wrap_t::<Box<Map<u8, Box<Map<u8, Box<u32>>>>>>,
        10 => wrap_t::<Paged<u8, u32, 2>>,
        11 => wrap_t::<Box<Paged<u8, u32, 2>>>,
        12 => wrap_t::<Seq<u32>>,
        13 => wrap_t::<Box<Seq<String>>>,
        14 => wrap_t::<Rc<Seq<u32>>>,
        15 => wrap_t::<Gr<u32>>,
        16 => wrap_t::<Box<Gr<M>>>,
        17 => wrap_t::<Gr<Rc<RbTree<u8, u32>>>>,
        18 => wrap_t::<RbTree<u8, Map<u8, Arc<Seq<u32>>>>>,
        19 => wrap_t::<Arc<RbTree<u8, Paged<u8, u32, 2>>>>,
        k => panic!("kind {k}"),
    };
    f(p[1], p[2], &p[3..])?;
    obs.steps = p.len() as u64;
    obs.fp = p.iter().fold(19u64, |a, x| a.wrapping_mul(1009).wrapping_add(*x as u64));
    Ok(())
}

fn wraps(ctx: &Ctx) {
    let si = ctx.scen("nestwrap");
    let mut v = vec![];
    for kind in 0..NWRAPS {
        for n in 1..=ctx.pick(5, 7) {
            let ops: Vec<i64> = (0..5).flat_map(|o| (0..n).map(move |k| o * 100 + k)).collect();
            for (x, a) in ops.iter().enumerate() {
                v.push(vec![kind, n, x as i64 % 8, *a]);
                for b in &ops {
                    v.push(vec![kind, n, (x as i64 + b) % 8, *a, *b]);
                    if n <= ctx.pick(2, 3) {
                        for c in &ops {
                            v.push(vec![kind, n, 0, *a, *b, *c]);
                        }
                    }
                }
            }
        }
    }
    v.reverse();
    ctx.par_items(&v, |p| {
        ctx.run(si, p);
    });
    ctx.note(format!("{NWRAPS} kinds of values behind pointers, trees, pages, sequences and groups, in up to {} levels: {} histories of one to three changes", 4, v.len()));
}
