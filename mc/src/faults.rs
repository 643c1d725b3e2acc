//! Failures of the code a caller supplies, at every point, and damaged serialized data.
use crate::engine::{guarded, Ctx, Fp, Obs};
use crate::hist::{self, ck, op};
use crate::mem::*;
use crate::spec::{self, Look};
use candid::{CandidType, Decode, Encode};
use certified_vars::label::Label;
use certified_vars::rbtree::entry::Entry;
use certified_vars::{AsHashTree, GroupBuilder, HashTree, Map, Paged, Seq};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::{Debug, Write as _};

/// Everything a client can see agrees with the model.
fn consistent(s: &Sut, m: &Model) -> Result<(), String> {
    state(s, m, (0, 0))?;
    let t = s.tree();
    let mut es: Vec<(i64, u32, u8)> = vec![];
    t.for_each(|k, v| es.push((k.k, v.id(), v.v)));
    ck(es.iter().map(|e| (e.0, e.1)).eq(m.iter().map(|(k, v)| (*k, v.1))), || {
        format!("the entries are {es:?} instead of those of {:?}", m.keys())
    })?;
    ck(t.is_empty() == m.is_empty(), || "is_empty".into())?;
    let root = t.root_hash();
    let full = spec::of(&t.as_hash_tree());
    ck(spec::digest(&full) == root, || "the root hash is not the digest of the full tree".into())?;
    let lbs: Vec<Vec<u8>> = m.keys().map(|k| k.to_be_bytes().to_vec()).collect();
    ck(spec::labels(&full).into_iter().eq(lbs.iter().map(|l| &l[..])), || "the full tree does not show the keys".into())?;
    ck(spec::leaves(&full).into_iter().eq(es.iter().map(|e| std::slice::from_ref(&e.2))), || {
        "the full tree does not show the values".into()
    })?;
    let mut ask: Vec<i64> = m.keys().copied().collect();
    ask.extend(m.keys().map(|k| k + 1));
    ask.push(0);
    for i in ask {
        let k = Tk::new(i);
        let w = spec::of(&t.witness(&k));
        ck(spec::digest(&w) == root, || format!("the witness of {i} does not verify"))?;
        let l = spec::lookup(&w, &i.to_be_bytes());
        let ok = match es.iter().find(|e| e.0 == i) {
            Some(e) => l == Look::Found(&spec::T::V(vec![e.2])),
            None => l == Look::Absent,
        };
        ck(ok, || format!("the witness of {i} says {l:?}"))?;
        ck(t.get(&k).map(|v| v.id()) == m.get(&i).map(|x| x.1), || format!("get({i})"))?;
    }
    let w = spec::of(&t.keys());
    ck(spec::digest(&w) == root, || "the witness of the keys does not verify".into())
}

#[derive(Clone, Copy, PartialEq)]
enum How {
    /// Not enabled, or no call left to fail.
    Not,
    Failed,
}

/// A writer that fails after some bytes.
struct W(usize);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 < b.len() {
            return Err(std::io::Error::other("full"));
        }
        self.0 -= b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
struct FW(usize);
impl std::fmt::Write for FW {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0 < s.len() {
            return Err(std::fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}
/// A reader that gives one byte at a time and fails (or ends) after some.
struct R<'a>(&'a [u8], bool);
impl std::io::Read for R<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        match self.0.split_first() {
            Some((x, rest)) if !b.is_empty() => {
                b[0] = *x;
                self.0 = rest;
                Ok(1)
            }
            Some(_) => Ok(0),
            None if self.1 => Err(std::io::Error::other("gone")),
            None => Ok(0),
        }
    }
}

pub const FAULTS: i64 = 21;
const NAMES: [&str; 21] = [
    "modify",
    "and_modify",
    "or_insert_with",
    "or_insert_with_key",
    "or_default",
    "and_modify, then or_insert",
    "nested_witness",
    "for_each",
    "get_with",
    "modify_max_with_prefix",
    "Debug of an element",
    "Debug to a writer",
    "Serialize of an element (panic)",
    "Serialize of an element (error)",
    "serialization to a writer",
    "Candid serialization of an element",
    "modify handing the reference on",
    "reads inside nested_witness that fail",
    "from_iter",
    "deserialization of an element (panic)",
    "deserialization of an element (error)",
];

/// Fault `kind` at its `nth` point, on key `i`. What is complete is in the model.
fn fault(s: &mut Sut, m: &mut Model, kind: i64, i: i64, nth: u64) -> Result<How, String> {
    use How::*;
    let boom = || -> ! { panic!("injected") };
    let here = m.contains_key(&i);
    let must = |r: Result<(), String>| ck(r.is_err(), || format!("a panic in {} is swallowed", NAMES[kind as usize]));
    let mut wrote = None;
    let mut write = |v: &mut Tv| {
        if nth == 1 {
            let x = Tv::new(200);
            wrote = Some(x.id());
            *v = x;
        }
    };
    match kind {
        0 | 9 | 16 => {
            if !here || nth > 1 {
                return Ok(Not);
            }
            let Sut::R(t) = s else { return Ok(Not) };
            let k = Tk::new(i);
            let r = match kind {
                0 => guarded(|| {
                    t.modify(&k, |v| {
                        write(v);
                        boom()
                    });
                }),
                9 => guarded(|| {
                    t.modify_max_with_prefix(&i, |_, v| {
                        write(v);
                        boom()
                    });
                }),
                _ => guarded(|| {
                    let v = t.modify(&k, |v| v).unwrap();
                    write(v);
                    boom()
                }),
            };
            must(r)?;
        }
        1 | 5 => {
            if !here || nth > 1 {
                return Ok(Not);
            }
            let r = guarded(|| {
                let e = s.entry(Tk::new(i)).and_modify(|v| {
                    write(v);
                    boom()
                });
                if kind == 5 {
                    e.or_insert(Tv::new(1));
                }
            });
            must(r)?;
        }
        2..=4 => {
            if here || nth > 0 {
                return Ok(Not);
            }
            let r = guarded(|| {
                let e = s.entry(Tk::new(i));
                match kind {
                    2 => {
                        e.or_insert_with(|| boom());
                    }
                    3 => {
                        e.or_insert_with_key(|k| {
                            k.t.touch();
                            boom()
                        });
                    }
                    _ => {
                        arm(F_DEFAULT, 0, true);
                        e.or_default();
                    }
                }
            });
            disarm();
            must(r)?;
        }
        6 => {
            if !here || nth > 0 {
                return Ok(Not);
            }
            let k = Tk::new(i);
            must(guarded(|| {
                s.tree().nested_witness(&k, |_| boom());
            }))?;
        }
        7 => {
            if nth >= m.len() as u64 {
                return Ok(Not);
            }
            let mut n = 0;
            must(guarded(|| {
                s.tree().for_each(|_, _| {
                    if n == nth {
                        boom()
                    }
                    n += 1;
                })
            }))?;
        }
        8 => {
            let n = Cell::new(0);
            let r = guarded(|| {
                s.tree().get_with(|k| {
                    if n.replace(n.get() + 1) == nth {
                        boom()
                    }
                    i.cmp(&k.k)
                });
            });
            if n.get() <= nth {
                return Ok(Not);
            }
            must(r)?;
        }
        10 | 11 => {
            let Sut::M(x) = s else { return Ok(Not) };
            if kind == 10 {
                arm(F_FMT, nth, false);
                let mut o = String::new();
                let r = write!(o, "{x:?}");
                if !disarm() {
                    return Ok(Not);
                }
                ck(r.is_err(), || "an error in Debug is swallowed".into())?;
                arm(F_FMT, nth, true);
                let r = guarded(|| {
                    let _ = write!(o, "{x:?}");
                });
                disarm();
                must(r)?;
            } else {
                let n = format!("{x:?}").len();
                if nth as usize >= n {
                    return Ok(Not);
                }
                ck(write!(FW(nth as usize), "{x:?}").is_err(), || "an error of the writer is swallowed".into())?;
            }
        }
        12 | 13 | 15 => {
            let Sut::M(x) = s else { return Ok(Not) };
            arm(F_SER, nth, kind != 13);
            let r = guarded(|| {
                if kind == 15 {
                    enc_map(x).map(drop)
                } else {
                    serde_cbor::to_vec(x).map(|_| ()).map_err(|e| e.to_string())
                }
            });
            if !disarm() {
                return Ok(Not);
            }
            ck(!matches!(r, Ok(Ok(()))), || "a failure to serialize an element is swallowed".into())?;
        }
        14 => {
            let Sut::M(x) = s else { return Ok(Not) };
            let n = serde_cbor::to_vec(x).map_err(|e| e.to_string())?.len();
            if nth as usize >= n {
                return Ok(Not);
            }
            ck(serde_cbor::to_writer(W(nth as usize), x).is_err(), || "an error of the writer is swallowed".into())?;
        }
        17 => {
            // The function of a nested witness looks at the map itself, and fails.
            if !here || nth > 3 {
                return Ok(Not);
            }
            let (k, t) = (Tk::new(i), s.tree());
            let root = t.root_hash();
            let k2 = Tk::new(i + 1);
            let r = guarded(|| {
                t.nested_witness(&k, |_| {
                    t.root_hash();
                    if nth > 0 {
                        t.witness(&k2);
                    }
                    if nth > 1 {
                        t.nested_witness(&k, |_| if nth > 2 { boom() } else { HashTree::Empty });
                    }
                    boom()
                });
            });
            must(r)?;
            ck(t.root_hash() == root, || "root hash".into())?;
        }
        18 => {
            if nth > 4 {
                return Ok(Not);
            }
            let mut n = 0;
            let it = std::iter::from_fn(|| {
                if n == nth {
                    boom()
                }
                n += 1;
                Some((Tk::new((n as i64 * 5) % 3), Tv::new(n as u8)))
            });
            must(guarded(|| drop(it.collect::<Map<Tk, Tv>>())))?;
        }
        19 | 20 => {
            let Sut::M(x) = s else { return Ok(Not) };
            let b = serde_cbor::to_vec(x).map_err(|e| e.to_string())?;
            arm(F_DE, nth, kind == 19);
            let r = guarded(|| serde_cbor::from_slice::<Map<Tk, Tv>>(&b).map(drop).map_err(|e| e.to_string()));
            if !disarm() {
                ck(matches!(r, Ok(Ok(()))), || format!("what was serialized is not read: {r:?}"))?;
                return Ok(Not);
            }
            ck(!matches!(r, Ok(Ok(()))), || "a failure to deserialize an element is swallowed".into())?;
            let b = enc_map(x)?;
            arm(F_DE, nth, kind == 19);
            let r = guarded(|| dec_map(&b).map(drop));
            ck(disarm(), || "nothing failed".into())?;
            ck(!matches!(r, Ok(Ok(()))), || "a failure to deserialize an element is swallowed (Candid)".into())?;
        }
        k => panic!("fault {k}"),
    }
    if let Some(x) = wrote {
        m.get_mut(&i).ok_or("a missing key was modified")?.1 = x;
    }
    Ok(Failed)
}

/// Parameters: 0 Map or 1 RbTree, fault, key, point, operation after it (-1: none), operations before...
pub fn fmap(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let mut how = How::Not;
    owned(|| {
        let mut s = Sut::new(p[0]);
        let mut m = Model::new();
        for (j, o) in p[5..].iter().enumerate() {
            apply(&mut s, &mut m, *o, j as u8)?;
        }
        how = fault(&mut s, &mut m, p[1], p[2], p[3] as u64)?;
        if how == How::Not {
            return Ok(());
        }
        if p[4] < 0 {
            return consistent(&s, &m);
        }
        // Without a look at the state in between, which might repair it.
        apply(&mut s, &mut m, p[4], 99)?;
        consistent(&s, &m).map_err(|e| format!("after another operation: {e}"))?;
        apply(&mut s, &mut m, op(hist::REM, p[2]), 98)?;
        apply(&mut s, &mut m, op(INSW, p[2] + 1), 97)?;
        consistent(&s, &m).map_err(|e| format!("after three more operations: {e}"))
    })?;
    let mut fp = Fp::new();
    for x in p {
        fp.num(*x as u64);
    }
    obs.fp = fp.0;
    obs.steps = p.len() as u64 - 4;
    obs.trivial = how == How::Not;
    obs.text = format!("(failure in {})", NAMES[p[1] as usize]);
    Ok(())
}

// ---------------------------------------------------------------- failing keys and values

/// What the map holds, seen from outside; the model is set to it if that is what it was before, or
/// what it is when the operation on `i` is complete.
fn adopt(s: &Sut, m: &mut Model, i: i64, new: Option<u32>, may_go: bool, what: &str) -> Result<(), String> {
    reg_ok()?;
    let mut es: Vec<(i64, u32, u32)> = vec![];
    s.tree().for_each(|k, v| es.push((k.k, k.id(), v.id())));
    ck(es.windows(2).all(|w| w[0].0 < w[1].0), || format!("after a failure in {what} the keys are {es:?}"))?;
    for (k, _, v) in &es {
        let known = m.get(k).map(|x| x.1);
        let ok = known == Some(*v) || *k == i && new == Some(*v);
        ck(ok, || format!("after a failure in {what} value number {v} is at {k}, where it was {known:?} before"))?;
    }
    for k in m.keys() {
        let there = es.iter().any(|e| e.0 == *k);
        ck(there || *k == i && may_go, || format!("after a failure in {what} the entry of {k} is lost"))?;
    }
    m.clear();
    for (k, ki, v) in es {
        m.insert(k, (vec![ki], v));
    }
    Ok(())
}

pub const TRAITS: i64 = 26;
const TNAMES: [&str; TRAITS as usize] = [
    "insert",
    "remove",
    "remove_entry",
    "get_mut",
    "entry().or_insert",
    "entry().or_default",
    "entry().and_modify",
    "entry().remove",
    "entry().remove_entry",
    "entry().get_mut",
    "entry().into_mut",
    "modify_max_with_prefix",
    "root_hash",
    "witness",
    "as_hash_tree",
    "witness_keys",
    "witness_key_range",
    "witness_value_range",
    "witness_keys_with_prefix",
    "nested_witness",
    "get",
    "iter",
    "clear",
    "serialization and back",
    "from_iter",
    "get_with",
];

/// An operation in the middle of which a comparison, a label or a hash of the caller's types fails.
fn tfault(s: &mut Sut, m: &mut Model, kind: i64, i: i64, mask: u32, nth: u64) -> Result<How, String> {
    let what = TNAMES[kind as usize];
    let k = Tk::new(i);
    let v = Tv::new(77);
    let vid = v.id();
    let mut v = Some(v);
    let mut k = Some(k);
    let probe = Tk::new(i);
    let mut bytes = vec![];
    if kind == 23 {
        if let Sut::M(x) = &*s {
            bytes = serde_cbor::to_vec(x).map_err(|e| e.to_string())?;
        }
    }
    arm(mask, nth, true);
    let r = guarded(|| {
        let mut set = |r: &mut Tv| *r = v.take().unwrap();
        match (kind, &mut *s) {
            (0, Sut::M(x)) => drop(x.insert(k.take().unwrap(), v.take().unwrap())),
            (0, Sut::R(x)) => drop(x.insert(k.take().unwrap(), v.take().unwrap())),
            (1, Sut::M(x)) => drop(x.remove(&probe)),
            (1 | 2, Sut::R(x)) => drop(x.delete(&probe)),
            (2, Sut::M(x)) => drop(x.remove_entry(&probe)),
            (3, Sut::M(x)) => drop(x.get_mut(&probe).map(set)),
            (3, Sut::R(x)) => drop(x.modify(&probe, set)),
            (4, x) => drop(x.entry(k.take().unwrap()).or_insert(v.take().unwrap())),
            (5, x) => {
                x.entry(k.take().unwrap()).or_default().v = 3;
            }
            (6, x) => drop(x.entry(k.take().unwrap()).and_modify(set)),
            (7..=10, x) => {
                if let Entry::Occupied(mut e) = x.entry(k.take().unwrap()) {
                    match kind {
                        7 => drop(e.remove()),
                        8 => drop(e.remove_entry()),
                        9 => set(e.get_mut()),
                        _ => set(e.into_mut()),
                    }
                }
            }
            (11, Sut::R(x)) => drop(x.modify_max_with_prefix(&i, |_, r| set(r))),
            (12, x) => drop(x.tree().root_hash()),
            (13, x) => drop(x.tree().witness(&probe)),
            (14, x) => drop(x.tree().as_hash_tree()),
            (15, x) => drop(x.tree().keys()),
            (16, x) => drop(x.tree().key_range(&i, &(i + 9))),
            (17, x) => drop(x.tree().value_range(&i, &(i + 9))),
            (18, x) => drop(x.tree().keys_with_prefix(&i)),
            (19, x) => drop(x.tree().nested_witness(&probe, |v| v.as_hash_tree())),
            (20, x) => drop(x.tree().get(&probe).map(|v| v.id())),
            (21, Sut::M(x)) => x.iter().for_each(|(k, v)| {
                k.id();
                v.id();
            }),
            (22, Sut::M(x)) => x.clear(),
            (23, Sut::M(_)) => drop(serde_cbor::from_slice::<Map<Tk, Tv>>(&bytes)),
            (24, Sut::M(_)) => drop([3, 1, 2, 1, 4].into_iter().map(|n| (Tk::new(n), Tv::new(n as u8))).collect::<Map<Tk, Tv>>()),
            (25, x) => drop(x.tree().get_with(|k| probe.cmp(k)).map(|v| v.id())),
            _ => {}
        }
    });
    if !disarm() {
        // Without a failure the others have shown what it does.
        return r.map(|_| How::Not);
    }
    ck(r.is_err(), || format!("a panic in {what} is swallowed"))?;
    drop((k, v, probe));
    let new = match kind {
        5 => {
            // The default value, whose number is not known
            let mut id = None;
            s.tree().for_each(|k, v| {
                if k.k == i {
                    id = Some(v.id())
                }
            });
            id.filter(|_| !m.contains_key(&i))
        }
        4 if m.contains_key(&i) => None,
        0 | 3 | 4 | 6 | 9 | 10 | 11 => Some(vid),
        _ => None,
    };
    adopt(s, m, i, new, matches!(kind, 1 | 2 | 7 | 8), what)?;
    Ok(How::Failed)
}

/// Parameters: 0 Map or 1 RbTree, operation, key, 0 comparison 1 label 2 hash, point, operation after
/// it (-1: none), operations before...
pub fn ftrait(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let mut how = How::Not;
    owned(|| {
        let mut s = Sut::new(p[0]);
        let mut m = Model::new();
        for (j, o) in p[6..].iter().enumerate() {
            apply(&mut s, &mut m, *o, j as u8)?;
        }
        how = tfault(&mut s, &mut m, p[1], p[2], [F_CMP, F_LABEL, F_HASH][p[3] as usize], p[4] as u64)?;
        if how == How::Not {
            return Ok(());
        }
        if p[5] < 0 {
            return consistent(&s, &m);
        }
        apply(&mut s, &mut m, p[5], 99)?;
        consistent(&s, &m).map_err(|e| format!("after another operation: {e}"))?;
        apply(&mut s, &mut m, op(hist::REM, p[2]), 98)?;
        apply(&mut s, &mut m, op(INSW, p[2] + 1), 97)?;
        consistent(&s, &m).map_err(|e| format!("after three more operations: {e}"))
    })?;
    let mut fp = Fp::new();
    for x in p {
        fp.num(*x as u64);
    }
    obs.fp = fp.0;
    obs.steps = p.len() as u64 - 5;
    obs.trivial = how == How::Not;
    obs.text = format!("(failure of a {} in {})", ["comparison", "label", "hash"][p[3] as usize], TNAMES[p[1] as usize]);
    Ok(())
}

/// The chain hash of the items.
fn chain(v: &[u8]) -> [u8; 32] {
    v.iter().fold([0; 32], |h, x| spec::sha(&[&h, &spec::leaf_digest(&[*x])]))
}
fn seq_ok(s: &Seq<Tv>, v: &[u8], other: usize) -> Result<(), String> {
    reg_ok()?;
    let got: Vec<u8> = s.iter().map(|x| x.v).collect();
    ck(got == v && s.len() == v.len() && s.is_empty() == v.is_empty(), || format!("the items are {got:?} instead of {v:?}"))?;
    ck(s.root_hash() == chain(v), || format!("the hash is not that of the items {v:?}"))?;
    ck(s.as_hash_tree() == HashTree::Pruned(chain(v)), || "the tree is not that of the items".into())?;
    ck(counts() == (0, (v.len() + other) as i64), || format!("{} items are alive instead of {}", counts().1, v.len() + other))
}

/// What an iterator does at its `nth` call.
struct It {
    n: u64,
    nth: u64,
    len: u64,
    /// 0 panic, 1 end but go on if asked again, 2 panic when asked for its size
    how: i64,
    hint: usize,
}
impl Iterator for It {
    type Item = Tv;
    fn next(&mut self) -> Option<Tv> {
        let n = self.n;
        self.n += 1;
        if n == self.nth && self.how == 0 {
            panic!("injected");
        }
        if n == self.nth && self.how == 1 || n >= self.len {
            return None;
        }
        Some(Tv::new(100 + n as u8))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.how == 2 {
            panic!("injected");
        }
        (self.hint, None)
    }
}

/// Parameters: kind, point, items before, items after.
pub fn fseq(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let (kind, nth, len) = (p[0], p[1] as u64, p[2]);
    let mut done = false;
    owned(|| {
        let mut s: Seq<Tv> = Seq::with_capacity(p[2] as usize / 2);
        let mut v: Vec<u8> = vec![];
        for i in 0..len {
            s.append(Tv::new(i as u8));
            v.push(i as u8);
        }
        let must = |r: Result<(), String>| ck(r.is_err(), || "a failure is swallowed".to_string());
        match kind {
            // Extending: what was taken from the iterator stays.
            0..=5 => {
                let it = It { n: 0, nth, len: 4, how: kind % 3, hint: [0, 0, 0, 3, 4, 9][kind as usize] };
                if nth > 4 || nth == 4 && kind % 3 == 1 || kind % 3 == 2 && nth > 0 {
                    return Ok(());
                }
                done = true;
                let r = guarded(|| s.extend(it));
                match kind % 3 {
                    0 => must(r)?,
                    1 => r?,
                    _ => must(r)?,
                }
                // Without a failure everything is there; after one, at most what was taken.
                let most = if kind % 3 == 2 { 0 } else { nth };
                let got = (s.len() as u64).saturating_sub(len as u64);
                v.extend((0..if kind % 3 == 1 { most } else { got.min(most) }).map(|x| 100 + x as u8));
            }
            6 => {
                let it = It { n: 0, nth, len: 4, how: 0, hint: 1 };
                if nth > 4 {
                    return Ok(());
                }
                done = true;
                must(guarded(|| drop(it.collect::<Seq<Tv>>())))?;
                let it = It { n: 0, nth, len: 4, how: 1, hint: 1 };
                let t: Seq<Tv> = it.collect();
                let w: Vec<u8> = (0..nth.min(4)).map(|x| 100 + x as u8).collect();
                seq_ok(&t, &w, v.len())?;
            }
            // Clones
            7..=9 => {
                if nth >= len as u64 {
                    return Ok(());
                }
                done = true;
                arm(F_CLONE, nth, true);
                let r = match kind {
                    7 => guarded(|| drop(s.clone())),
                    8 => guarded(|| drop(Seq::from(&s.as_vec()[..]))),
                    _ => {
                        let mut w: Vec<Tv> = std::mem::take(&mut s).into();
                        let r = guarded(|| drop(Seq::from(&mut w[..])));
                        s = w.into();
                        r
                    }
                };
                ck(disarm(), || "nothing failed".into())?;
                must(r)?;
            }
            // clone_from
            10 => {
                if nth >= 3 {
                    return Ok(());
                }
                done = true;
                let mut c: Seq<Tv> = (0..3).map(|x| Tv::new(50 + x)).collect();
                std::mem::swap(&mut c, &mut s);
                arm(F_CLONE, nth, true);
                let r = guarded(|| c.clone_from(&s));
                let failed = disarm();
                ck(failed == r.is_err(), || "a failure is swallowed".into())?;
                // The source is as before; the target is valid.
                let src: Vec<u8> = s.iter().map(|x| x.v).collect();
                ck(src == [50, 51, 52] && s.root_hash() == chain(&src), || "the source of clone_from changed".into())?;
                let tgt: Vec<u8> = c.iter().map(|x| x.v).collect();
                ck(c.root_hash() == chain(&tgt), || "the hash is not that of the items after clone_from".into())?;
                ck(failed || tgt == src, || "clone_from".into())?;
                std::mem::swap(&mut c, &mut s);
                v = tgt;
            }
            // Serialization
            11 | 12 => {
                arm(F_SER, nth, kind == 11);
                let r = guarded(|| serde_cbor::to_vec(&s).map(drop).map_err(|e| e.to_string()));
                if !disarm() {
                    return r.and_then(|x| x);
                }
                done = true;
                must(r.and_then(|x| x))?;
                let b = enc_seq(&s)?;
                arm(F_SER, nth, true);
                let r = guarded(|| drop(enc_seq(&s)));
                ck(disarm(), || "nothing failed".into())?;
                must(r)?;
                let b2 = enc_seq(&s)?;
                ck(b == b2, || "the encoding changed".into())?;
            }
            13 | 14 => {
                let b = serde_cbor::to_vec(&s).map_err(|e| e.to_string())?;
                arm(F_DE, nth, kind == 13);
                let r = guarded(|| serde_cbor::from_slice::<Seq<Tv>>(&b).map(drop).map_err(|e| e.to_string()));
                if !disarm() {
                    return r.and_then(|x| x);
                }
                done = true;
                must(r.and_then(|x| x))?;
                let b = enc_seq(&s)?;
                arm(F_DE, nth, kind == 13);
                let r = guarded(|| dec_seq(&b).map(drop));
                ck(disarm(), || "nothing failed".into())?;
                must(r.and_then(|x| x))?;
            }
            15 => {
                let n = serde_cbor::to_vec(&s).map_err(|e| e.to_string())?.len();
                if nth as usize >= n {
                    return Ok(());
                }
                done = true;
                ck(serde_cbor::to_writer(W(nth as usize), &s).is_err(), || "an error of the writer is swallowed".into())?;
            }
            16 => {
                arm(F_FMT, nth, false);
                let mut o = String::new();
                let r = write!(o, "{s:?}");
                if !disarm() {
                    return Ok(());
                }
                done = true;
                ck(r.is_err(), || "an error in Debug is swallowed".into())?;
            }
            // The hash of an item: what was complete before it stays.
            17 => {
                if nth > 0 {
                    return Ok(());
                }
                done = true;
                let x = Tv::new(70);
                arm(F_HASH, 0, true);
                let r = guarded(|| s.append(x));
                ck(disarm(), || "nothing failed".into())?;
                must(r)?;
            }
            18 => {
                if nth >= 4 {
                    return Ok(());
                }
                done = true;
                let w: Vec<Tv> = (0..4).map(|x| Tv::new(100 + x)).collect();
                arm(F_HASH, nth, true);
                let r = guarded(|| s.extend(w));
                ck(disarm(), || "nothing failed".into())?;
                must(r)?;
                let got = s.len().saturating_sub(v.len()).min(nth as usize);
                v.extend((0..got).map(|x| 100 + x as u8));
            }
            19..=23 => {
                if nth >= len as u64 {
                    return Ok(());
                }
                done = true;
                let b = serde_cbor::to_vec(&s).map_err(|e| e.to_string())?;
                let mut w: Vec<Tv> = s.iter().map(|x| Tv::new(x.v)).collect();
                arm(F_HASH, nth, true);
                let r = guarded(|| match kind {
                    19 => drop(Seq::from(std::mem::take(&mut w))),
                    20 => drop(Seq::from(&w[..])),
                    21 => drop(Seq::from(&mut w[..])),
                    22 => drop(std::mem::take(&mut w).into_iter().collect::<Seq<Tv>>()),
                    _ => drop(serde_cbor::from_slice::<Seq<Tv>>(&b)),
                });
                ck(disarm(), || "nothing failed".into())?;
                must(r)?;
            }
            // Items that are copied
            24 => {
                if nth >= 4 {
                    return Ok(());
                }
                done = true;
                let mut c: Seq<Cv> = (0..len).map(|x| Cv(x as u8)).collect();
                let w: Vec<Cv> = (0..4).map(|x| Cv(100 + x)).collect();
                arm(F_HASH, nth, true);
                let r = guarded(|| c.extend(&w));
                ck(disarm(), || "nothing failed".into())?;
                must(r)?;
                let got: Vec<u8> = c.iter().map(|x| x.0).collect();
                let all: Vec<u8> = v.iter().copied().chain(100..104).collect();
                ck(got.len() >= v.len() && got.len() <= v.len() + nth as usize && all.starts_with(&got), || {
                    format!("after a failure in extend the items are {got:?}")
                })?;
                ck(c.root_hash() == chain(&got), || "the hash is not that of the items after a failure in extend".into())?;
            }
            // Index out of range
            _ => {
                if nth > 1 {
                    return Ok(());
                }
                done = true;
                let r = guarded(|| s[len as usize + nth as usize].t.touch());
                must(r)?;
                let r = guarded(|| drop(s[1..len as usize + 1 + nth as usize].len()));
                must(r)?;
                ck(s[..].len() == len as usize, || "slice".into())?;
            }
        }
        if done {
            seq_ok(&s, &v, 0)?;
            for i in 0..p[3] {
                s.append(Tv::new(i as u8));
                v.push(i as u8);
                seq_ok(&s, &v, 0)?;
            }
        }
        Ok(())
    })?;
    obs.trivial = !done;
    obs.steps = 1;
    obs.fp = p.iter().fold(7, |a, x| a * 1009 + *x as u64);
    Ok(())
}
pub const SEQ_FAULTS: i64 = 26;

#[derive(Clone, Copy)]
struct Cv(u8);
impl AsHashTree for Cv {
    fn root_hash(&self) -> [u8; 32] {
        tick(F_HASH);
        spec::leaf_digest(&[self.0])
    }
    fn as_hash_tree(&self) -> HashTree<'_> {
        tick(F_HASH);
        HashTree::Leaf(vec![self.0].into())
    }
}

/// Sequences by key, in pages or not.
enum Deep {
    P1(Paged<Tk, Tv, 1>),
    P2(Paged<Tk, Tv, 2>),
    P3(Paged<Tk, Tv, 3>),
    M(Map<Tk, Seq<Tv>>),
}
macro_rules! deep {
    ($d:expr, $p:ident => $paged:expr, $m:ident => $map:expr) => {
        match $d {
            Deep::P1($p) => $paged,
            Deep::P2($p) => $paged,
            Deep::P3($p) => $paged,
            Deep::M($m) => $map,
        }
    };
}
impl Deep {
    fn size(&self) -> usize {
        match self {
            Deep::P1(_) => 1,
            Deep::P2(_) => 2,
            Deep::P3(_) => 3,
            Deep::M(_) => usize::MAX,
        }
    }
    fn add(&mut self, k: Tk, v: Tv) {
        deep!(self, p => p.insert(k, v), m => m.append_deep(k, v))
    }
    fn items(&self, k: &Tk) -> Vec<u8> {
        deep!(self, p => (0..).map_while(|n| p.get(k, n)).flat_map(|s| s.iter().map(|x| x.v).collect::<Vec<_>>()).collect(),
            m => m.get(k).map_or(vec![], |s| s.iter().map(|x| x.v).collect()))
    }
    fn root(&self) -> [u8; 32] {
        deep!(self, p => p.root_hash(), m => m.root_hash())
    }
    fn full(&self) -> spec::T {
        deep!(self, p => spec::of(&p.as_hash_tree()), m => spec::of(&m.as_hash_tree()))
    }
    fn page(&self, k: &Tk, n: usize) -> spec::T {
        deep!(self, p => spec::of(&p.witness(k, n)), m => spec::of(&m.witness(k)))
    }
}
type Lists = BTreeMap<i64, Vec<u8>>;
fn deep_ok(d: &Deep, m: &Lists) -> Result<(), String> {
    reg_ok()?;
    let n: usize = m.values().map(|v| v.len()).sum();
    ck(counts().1 == n as i64, || format!("{} items are alive instead of {n}", counts().1))?;
    let size = d.size();
    let mut want = vec![];
    for (k, v) in m {
        for (p, c) in v.chunks(size).enumerate() {
            let mut l = k.to_be_bytes().to_vec();
            if size != usize::MAX {
                l.extend((p as u32).to_be_bytes());
            }
            want.push(spec::T::L(l, Box::new(spec::T::P(chain(c)))));
        }
    }
    let full = d.full();
    ck(spec::flat(&full).into_iter().eq(&want), || format!("the full tree is {full:?}, the items are {m:?}"))?;
    let root = d.root();
    ck(spec::digest(&full) == root, || "the root hash is not the digest of the full tree".into())?;
    for k in 0..5 {
        let t = Tk::new(k);
        let none = vec![];
        let v = m.get(&k).unwrap_or(&none);
        let got = d.items(&t);
        ck(&got == v, || format!("the items of {k} are {got:?} instead of {v:?}"))?;
        let pages = v.chunks(size).count();
        let last = deep!(d, p => p.get_last_page_number(&t), _m => pages.checked_sub(1));
        ck(last == pages.checked_sub(1), || format!("the last page of {k} is {last:?} of {pages}"))?;
        for p in 0..=pages.min(if size == usize::MAX { 0 } else { 9 }) {
            let w = d.page(&t, p);
            ck(spec::digest(&w) == root, || format!("the witness of page {p} of {k} does not verify"))?;
            let mut l = k.to_be_bytes().to_vec();
            if size != usize::MAX {
                l.extend((p as u32).to_be_bytes());
            }
            let got = spec::lookup(&w, &l);
            let c = v.chunks(size).nth(p).map(|c| spec::T::P(chain(c)));
            ck(got == c.as_ref().map_or(Look::Absent, Look::Found), || format!("the witness of page {p} of {k} says {got:?}"))?;
        }
    }
    Ok(())
}
pub const DEEP: i64 = 9;
/// Parameters: collection, operation, key, 0 comparison 1 label 2 hash 3 clone, point, keys of the
/// items before...
pub fn fdeep(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    const NAMES: [&str; DEEP as usize] = ["insert", "root_hash", "as_hash_tree", "witness", "the witness of the last page", "get", "the last page number", "clear", "reading it"];
    let mut failed = false;
    owned(|| {
        let mut d = match p[0] {
            0 => Deep::P1(Paged::new()),
            1 => Deep::P2(Paged::new()),
            2 => Deep::P3(Paged::new()),
            _ => Deep::M(Map::new()),
        };
        let mut m = Lists::new();
        for (n, k) in p[5..].iter().enumerate() {
            d.add(Tk::new(*k), Tv::new(n as u8));
            m.entry(*k).or_default().push(n as u8);
        }
        let (i, what) = (p[2], NAMES[p[1] as usize]);
        let t = Tk::new(i);
        let mut kv = Some((Tk::new(i), Tv::new(77)));
        let bytes = match (p[1], &d) {
            (8, Deep::P2(x)) => serde_cbor::to_vec(x).map_err(|e| e.to_string())?,
            (8, Deep::M(x)) => serde_cbor::to_vec(x).map_err(|e| e.to_string())?,
            _ => vec![],
        };
        arm([F_CMP, F_LABEL, F_HASH, F_CLONE][p[3] as usize], p[4] as u64, true);
        let r = guarded(|| match p[1] {
            0 => {
                let (k, v) = kv.take().unwrap();
                d.add(k, v)
            }
            1 => drop(d.root()),
            2 => drop(d.full()),
            3 => drop(deep!(&d, x => spec::of(&x.witness(&t, 0)), x => spec::of(&x.witness(&t)))),
            4 => drop(deep!(&d, x => spec::of(&x.witness_last_page_number(&t)), x => spec::of(&x.witness_keys()))),
            5 => drop(deep!(&d, x => x.get(&t, 0).map(|s| s.len()), x => x.get(&t).map(|s| s.len()))),
            6 => drop(deep!(&mut d, x => x.get_last_page_number(&t), x => Some(x.len_deep(&t)))),
            7 => match &mut d {
                Deep::M(x) => x.clear(),
                _ => {}
            },
            _ => match &d {
                Deep::P2(_) => drop(serde_cbor::from_slice::<Paged<Tk, Tv, 2>>(&bytes)),
                Deep::M(_) => drop(serde_cbor::from_slice::<Map<Tk, Seq<Tv>>>(&bytes)),
                _ => {}
            },
        });
        failed = disarm();
        if !failed {
            return r;
        }
        ck(r.is_err(), || format!("a panic in {what} is swallowed"))?;
        drop((t, kv));
        // An item is there or it is not.
        if p[1] == 0 {
            let got = d.items(&Tk::new(i));
            if got.len() > m.get(&i).map_or(0, |v| v.len()) {
                m.entry(i).or_default().push(77);
            }
        }
        deep_ok(&d, &m).map_err(|e| format!("after a failure in {what}: {e}"))?;
        for k in [i, 2, i] {
            d.add(Tk::new(k), Tv::new(90));
            m.entry(k).or_default().push(90);
        }
        deep_ok(&d, &m).map_err(|e| format!("after a failure in {what} and three more items: {e}"))
    })?;
    let mut fp = Fp::new();
    for x in p {
        fp.num(*x as u64);
    }
    obs.fp = fp.0;
    obs.steps = p.len() as u64 - 4;
    obs.trivial = !failed;
    Ok(())
}


struct L<const N: usize>(Tv);
impl<const N: usize> AsHashTree for L<N> {
    fn as_hash_tree(&self) -> HashTree<'_> {
        self.0.as_hash_tree()
    }
}
/// Groups: parameters: kind, point, number of leaves.
pub fn fgroup(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let mut done = false;
    let mut rooted = 0;
    owned(|| {
        let mut b = GroupBuilder::new().insert(["a", "x"], L::<0>(Tv::new(1)));
        if p[2] > 1 {
            b = b.insert(["a", "y"], L::<1>(Tv::new(2)));
        }
        if p[2] > 2 {
            b = b.insert(["b"], L::<2>(Tv::new(3)));
        }
        let mut g = b.build();
        let before = g.root_hash();
        let r = match p[0] {
            0 => {
                if p[1] > 1 {
                    return Ok(());
                }
                guarded(|| {
                    let r = g.witness().full::<L<0>>();
                    let r = if p[1] == 1 { r.partial(|x: &L<0>| x.as_hash_tree()) } else { r };
                    drop(r.partial(|_: &L<0>| -> HashTree { panic!("injected") }).build());
                })
            }
            1..=3 => {
                arm(F_HASH, p[1] as u64, true);
                let r = guarded(|| match p[0] {
                    1 => drop(g.witness().full::<L<0>>().build()),
                    2 => drop(g.as_hash_tree()),
                    _ => drop(g.root_hash()),
                });
                if !disarm() {
                    return r;
                }
                r
            }
            4 => {
                if p[1] > 0 {
                    return Ok(());
                }
                guarded(|| {
                    let l = g.get_mut::<L<0>>();
                    l.0 = Tv::new(1);
                    panic!("injected")
                })
            }
            _ => {
                // A path that fails while it is being read
                if p[1] > 1 {
                    return Ok(());
                }
                let x = L::<3>(Tv::new(9));
                guarded(move || {
                    let mut n = 0;
                    let b = GroupBuilder::new().insert(["q"], L::<4>(Tv::new(1)));
                    drop(b.insert(
                        std::iter::from_fn(|| {
                            n += 1;
                            if n > p[1] {
                                panic!("injected")
                            }
                            Some("z")
                        }),
                        x,
                    ))
                })
            }
        };
        done = true;
        ck(r.is_err(), || "a failure is swallowed".into())?;
        reg_ok()?;
        ck(counts() == (0, p[2].min(3)), || format!("{} leaves are alive", counts().1))?;
        ck(g.root_hash() == before, || "the root hash changed".into())?;
        ck(spec::digest(&spec::of(&g.as_hash_tree())) == before, || "the full tree does not verify".into())?;
        let w = spec::of(&g.witness().full::<L<0>>().build());
        ck(spec::digest(&w) == before && spec::leaves(&w) == [&[1u8]], || "the witness does not verify".into())?;
        g.get_mut::<L<0>>().0 = Tv::new(5);
        let root = g.root_hash();
        let w = spec::of(&g.witness().full::<L<0>>().build());
        ck(root != before && spec::digest(&w) == root && spec::leaves(&w) == [&[5u8]], || "a change is not certified".into())?;
        rooted = root[0];
        Ok(())
    })?;
    obs.trivial = !done;
    obs.steps = 1;
    obs.fp = p.iter().fold(rooted as u64, |a, x| a * 1009 + *x as u64);
    Ok(())
}

// ---------------------------------------------------------------- damaged data

/// A collection and the ordinary one with the same encoding.
trait Pair {
    type S: Serialize + DeserializeOwned + CandidType + for<'a> candid::Deserialize<'a>;
    /// Read by serde
    type P: DeserializeOwned + Serialize + Debug + PartialEq;
    /// Read by Candid
    type C: CandidType + for<'a> candid::Deserialize<'a>;
    fn plain(c: Self::C) -> Self::P;
    fn of(n: i64) -> Self::P;
    fn make(n: i64) -> Self::S;
    /// The contents; an error when the collection contradicts itself.
    fn see(s: &Self::S) -> Result<Self::P, String>;
}

fn map_ok<K: Label + Clone + Ord, V: AsHashTree + Clone>(m: &Map<K, V>) -> Result<BTreeMap<K, V>, String> {
    let b: BTreeMap<K, V> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    ck(m.len() == b.len() && m.is_empty() == b.is_empty(), || "len".into())?;
    ck(m.iter().map(|e| e.0).eq(b.keys()), || "the order of the entries".into())?;
    let root = m.root_hash();
    let full = spec::of(&m.as_hash_tree());
    ck(spec::digest(&full) == root && spec::labels(&full).len() == b.len(), || "the root hash is not that of the tree".into())?;
    for k in b.keys() {
        let w = spec::of(&m.witness(k));
        ck(spec::digest(&w) == root, || "a witness does not verify".into())?;
        ck(matches!(spec::lookup(&w, &k.as_label()), Look::Found(_)), || "a witness does not show its key".into())?;
    }
    Ok(b)
}

struct P0;
impl Pair for P0 {
    type S = Map<u8, u32>;
    type P = BTreeMap<u8, u32>;
    type C = Vec<(u8, u32)>;
    fn plain(c: Self::C) -> Self::P {
        c.into_iter().collect()
    }
    fn of(n: i64) -> Self::P {
        (0..n).map(|i| ((i * 40 % 256) as u8, [7u32, 24, 300, 70000][i as usize % 4])).collect()
    }
    fn make(n: i64) -> Self::S {
        Self::of(n).into_iter().collect()
    }
    fn see(s: &Self::S) -> Result<Self::P, String> {
        map_ok(s)
    }
}
struct P1;
impl Pair for P1 {
    type S = Map<String, Vec<u8>>;
    type P = BTreeMap<String, Vec<u8>>;
    type C = Vec<(String, Vec<u8>)>;
    fn plain(c: Self::C) -> Self::P {
        c.into_iter().collect()
    }
    fn of(n: i64) -> Self::P {
        (0..n).map(|i| (["", "a", "ab\u{e9}", "b"][i as usize % 4].repeat(1 + i as usize / 4), vec![i as u8 * 30; i as usize])).collect()
    }
    fn make(n: i64) -> Self::S {
        Self::of(n).into_iter().collect()
    }
    fn see(s: &Self::S) -> Result<Self::P, String> {
        map_ok(s)
    }
}
struct P2;
impl Pair for P2 {
    type S = Seq<u8>;
    type P = Vec<u8>;
    type C = Vec<u8>;
    fn plain(c: Self::C) -> Self::P {
        c
    }
    fn of(n: i64) -> Self::P {
        (0..n).map(|i| (i * 23 + 5) as u8).collect()
    }
    fn make(n: i64) -> Self::S {
        Self::of(n).into()
    }
    fn see(s: &Self::S) -> Result<Self::P, String> {
        ck(s.root_hash() == chain(s.as_vec()), || "the hash is not that of the items".into())?;
        Ok(s.as_vec().clone())
    }
}
struct P3;
impl Pair for P3 {
    type S = Map<u8, Seq<u8>>;
    type P = BTreeMap<u8, Vec<u8>>;
    type C = Vec<(u8, Vec<u8>)>;
    fn plain(c: Self::C) -> Self::P {
        c.into_iter().collect()
    }
    fn of(n: i64) -> Self::P {
        (0..n).map(|i| ((i * 11) as u8, P2::of(i))).collect()
    }
    fn make(n: i64) -> Self::S {
        Self::of(n).into_iter().map(|(k, v)| (k, v.into())).collect()
    }
    fn see(s: &Self::S) -> Result<Self::P, String> {
        map_ok(s)?.into_iter().map(|(k, v)| Ok((k, P2::see(&v)?))).collect()
    }
}
#[derive(Serialize, Deserialize, CandidType, Debug, PartialEq, Eq, PartialOrd, Ord, Clone)]
struct MK {
    key: u8,
    page: u32,
}
#[derive(Serialize, Deserialize, Debug, PartialEq, Clone)]
struct MP {
    data: BTreeMap<MK, Vec<u8>>,
}
#[derive(Deserialize, CandidType)]
struct MC {
    data: Vec<(MK, Vec<u8>)>,
}
struct P4;
impl Pair for P4 {
    type S = Paged<u8, u8, 2>;
    type P = MP;
    type C = MC;
    fn plain(c: Self::C) -> Self::P {
        MP { data: c.data.into_iter().collect() }
    }
    fn of(n: i64) -> Self::P {
        let mut data: BTreeMap<MK, Vec<u8>> = BTreeMap::new();
        for i in 0..n {
            let k = MK { key: (i % 2) as u8, page: (i / 4) as u32 };
            data.entry(k).or_default().push(i as u8);
        }
        MP { data }
    }
    fn make(n: i64) -> Self::S {
        let mut s = Paged::new();
        for i in 0..n {
            s.insert((i % 2) as u8, i as u8);
        }
        s
    }
    fn see(s: &Self::S) -> Result<Self::P, String> {
        let root = s.root_hash();
        let full = spec::of(&s.as_hash_tree());
        ck(spec::digest(&full) == root, || "the root hash is not that of the tree".into())?;
        // Pages that cannot be asked for by their number show up as labels.
        let mut data = BTreeMap::new();
        for l in spec::labels(&full) {
            let k = MK { key: l[0], page: u32::from_be_bytes(l[1..].try_into().map_err(|_| "label")?) };
            let q = s.get(&k.key, k.page as usize).ok_or("a page that is in the tree cannot be read")?;
            data.insert(k, P2::see(q)?);
        }
        Ok(MP { data })
    }
}

fn same_cbor<X: Pair>(b: &[u8], strict: bool) -> Result<bool, String> {
    let want = guarded(|| serde_cbor::from_slice::<X::P>(b).ok()).unwrap_or(None);
    let got = guarded(|| serde_cbor::from_slice::<X::S>(b).ok()).map_err(|e| format!("reading {} crashes: {e}", spec::hex(b)))?;
    let got2 = guarded(|| serde_cbor::from_reader::<X::S, _>(R(b, false)).ok())
        .map_err(|e| format!("reading {} from a reader crashes: {e}", spec::hex(b)))?;
    for (g, how) in [(got, "slice"), (got2, "reader")] {
        let g = match &g {
            Some(s) => Some(X::see(s).map_err(|e| format!("{} is read ({how}) as a collection that is broken: {e}", spec::hex(b)))?),
            None => None,
        };
        match (&g, &want) {
            (Some(_), None) => return Err(format!("{} is read ({how}) as {g:?} and should be rejected", spec::hex(b))),
            (Some(x), Some(y)) if x != y => return Err(format!("{} is read ({how}) as {g:?} instead of {want:?}", spec::hex(b))),
            (None, Some(_)) if strict => return Err(format!("{} is rejected ({how}) and should be read as {want:?}", spec::hex(b))),
            _ => (),
        }
    }
    Ok(want.is_some())
}
fn same_candid<X: Pair>(b: &[u8]) -> Result<bool, String> {
    // The decoder of the dependency may itself panic on nonsense: then there is nothing to compare.
    let Ok(want) = guarded(|| Decode!(b, X::C).ok().map(X::plain)) else { return Ok(false) };
    let got = guarded(|| Decode!(b, X::S).ok()).map_err(|e| format!("Candid: reading {} crashes: {e}", spec::hex(b)))?;
    match &got {
        Some(s) => {
            let g = X::see(s).map_err(|e| format!("Candid: {} is read as a collection that is broken: {e}", spec::hex(b)))?;
            match &want {
                Some(w) if g == *w => Ok(true),
                w => Err(format!("Candid: {} is read as {g:?} instead of {w:?}", spec::hex(b))),
            }
        }
        None => Ok(false),
    }
}

fn data_t<X: Pair>(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let s = X::make(p[2]);
    let cb = serde_cbor::to_vec(&s).map_err(|e| e.to_string())?;
    let ca = Encode!(&s).map_err(|e| e.to_string())?;
    let want = X::of(p[2]);
    let mut acc = 0;
    let mut n = 0;
    match p[1] {
        // As it is
        0 => {
            ck(X::see(&s)? == want, || "the collection is not what it was made of".into())?;
            ck(same_cbor::<X>(&cb, true)? && same_candid::<X>(&ca)?, || "what was written is not read".into())?;
            acc = 2;
            n = 2;
        }
        // Cut short at every byte, by the end of the data or by an error of the reader
        1 => {
            for i in 0..cb.len() {
                let r = guarded(|| serde_cbor::from_slice::<X::S>(&cb[..i]).is_ok())?;
                ck(!r, || format!("data cut after {i} of {} bytes is accepted", cb.len()))?;
                for err in [false, true] {
                    let r = guarded(|| serde_cbor::from_reader::<X::S, _>(R(&cb[..i], err)).is_ok())?;
                    ck(!r, || format!("a reader that ends after {i} of {} bytes is accepted", cb.len()))?;
                }
                n += 3;
            }
            for i in 0..ca.len() {
                let r = guarded(|| Decode!(&ca[..i], X::S).is_ok())?;
                ck(!r, || format!("Candid data cut after {i} of {} bytes is accepted", ca.len()))?;
                n += 1;
            }
            let mut more = cb.clone();
            more.push(0);
            ck(serde_cbor::from_slice::<X::S>(&more).is_err(), || "data with a byte too many is accepted".into())?;
            let mut more = ca.clone();
            more.push(0);
            ck(Decode!(&more, X::S).is_err(), || "Candid data with a byte too many is accepted".into())?;
        }
        // One byte replaced by any other (p[3]: which)
        2 => {
            let Some(i) = (p[3] as usize).checked_sub(0).filter(|i| *i < cb.len()) else {
                obs.trivial = true;
                return Ok(());
            };
            for x in 0..=255u8 {
                let mut b = cb.clone();
                b[i] = x;
                acc += same_cbor::<X>(&b, true)? as u64;
                n += 1;
            }
        }
        3 => {
            let i = p[3] as usize;
            if i >= ca.len() {
                obs.trivial = true;
                return Ok(());
            }
            for x in 0..=255u8 {
                let mut b = ca.clone();
                b[i] = x;
                acc += same_candid::<X>(&b)? as u64;
                n += 1;
            }
        }
        // One byte left out, or doubled, or two neighbours swapped
        _ => {
            for i in 0..cb.len() {
                let mut b = cb.clone();
                b.remove(i);
                acc += same_cbor::<X>(&b, true)? as u64;
                let mut b = cb.clone();
                b.insert(i, cb[i]);
                acc += same_cbor::<X>(&b, true)? as u64;
                if i > 0 {
                    let mut b = cb.clone();
                    b.swap(i, i - 1);
                    acc += same_cbor::<X>(&b, true)? as u64;
                }
                n += 3;
            }
            for i in 0..ca.len() {
                let mut b = ca.clone();
                b.remove(i);
                acc += same_candid::<X>(&b)? as u64;
                let mut b = ca.clone();
                b.insert(i, ca[i]);
                acc += same_candid::<X>(&b)? as u64;
                n += 2;
            }
        }
    }
    obs.steps = n;
    obs.fp = p.iter().fold(acc, |a, x| a * 1009 + *x as u64);
    obs.text = format!("{n} inputs, {acc} of them accepted");
    Ok(())
}
macro_rules! pair {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k {
            0 => $f::<P0>($($a),*),
            1 => $f::<P1>($($a),*),
            2 => $f::<P2>($($a),*),
            3 => $f::<P3>($($a),*),
            _ => $f::<P4>($($a),*),
        }
    };
}
/// Parameters: type, damage, size, place.
pub fn data(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    pair!(p[0], data_t(p, obs))
}

fn every_t<X: Pair>(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let mut b: Vec<u8> = p[2..].iter().map(|x| *x as u8).collect();
    let at = b.len();
    let mut acc = 0;
    acc += same_cbor::<X>(&b, true)? as u64;
    if p[1] > 0 {
        b.push(0);
        for x in 0..=255 {
            b[at] = x;
            acc += same_cbor::<X>(&b, true)? as u64;
        }
    }
    obs.steps = 1 + 256 * p[1] as u64;
    obs.fp = p.iter().fold(acc, |a, x| a * 257 + *x as u64);
    obs.text = format!("{acc} accepted");
    Ok(())
}
/// Parameters: type, 1 to try all last bytes, bytes... Any bytes at all are read as an ordinary
/// collection would read them.
pub fn every(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    pair!(p[0], every_t(p, obs))
}

fn typed_t<X: Pair>(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    use serde_cbor::Value as V;
    fn val(d: i64, c: &mut i64) -> V {
        // A value of depth at most d, by number.
        let k = *c % 10;
        *c /= 10;
        match k {
            0 => V::Null,
            1 => V::Bool(true),
            2 => V::Integer(3),
            3 => V::Integer(-3),
            4 => V::Text("a".into()),
            5 => V::Bytes(vec![1, 2]),
            6 => V::Float(1.0),
            7 => V::Integer(1 << 40),
            8 if d > 0 => {
                let n = *c % 3;
                *c /= 3;
                V::Array((0..n).map(|_| val(d - 1, c)).collect())
            }
            9 if d > 0 => {
                let n = *c % 3;
                *c /= 3;
                V::Map((0..n).map(|_| (val(d - 1, c), val(d - 1, c))).collect())
            }
            _ => V::Tag(5, Box::new(V::Integer(1))),
        }
    }
    let mut c = p[1];
    let v = val(2, &mut c);
    if c != 0 {
        obs.trivial = true;
        return Ok(());
    }
    let b = serde_cbor::to_vec(&v).map_err(|e| e.to_string())?;
    let ok = same_cbor::<X>(&b, true)?;
    let want = guarded(|| serde_cbor::value::from_value::<X::P>(v.clone()).ok()).unwrap_or(None);
    let got = guarded(|| serde_cbor::value::from_value::<X::S>(v.clone()).ok())?;
    let got = match &got {
        Some(s) => Some(X::see(s)?),
        None => None,
    };
    ck(got == want, || format!("the value {v:?} is read as {got:?} instead of {want:?}"))?;
    obs.steps = 2;
    obs.fp = p[1] as u64 * 7 + p[0] as u64;
    obs.text = format!("{v:?} accepted: {ok}");
    Ok(())
}
/// Parameters: type, number of the value.
pub fn typed(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    pair!(p[0], typed_t(p, obs))
}

/// Candid data of every other type. Parameters: type, what is encoded.
fn candid_typed_t<X: Pair>(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    #[derive(CandidType)]
    struct Rec {
        a: u8,
    }
    #[derive(CandidType)]
    struct Three(u8, u32, u8);
    #[derive(CandidType)]
    struct One(u8);
    #[derive(CandidType)]
    struct Data<D> {
        data: D,
    }
    #[derive(CandidType)]
    struct Key2 {
        key: u8,
        page: u64,
    }
    let none: Vec<u8> = vec![];
    let b = match p[1] {
        0 => Encode!(&1u8),
        1 => Encode!(&"x"),
        2 => Encode!(&Rec { a: 1 }),
        3 => Encode!(&vec![1u32]),
        4 => Encode!(&vec!["x"]),
        5 => Encode!(&vec![Three(1, 2, 3)]),
        6 => Encode!(&vec![One(1)]),
        7 => Encode!(&vec![(1u32, 1u32)]),
        8 => Encode!(&vec![(1u8, 1u8)]),
        9 => Encode!(&vec![(1u8, "x")]),
        10 => Encode!(&Some(1u8)),
        11 => Encode!(&()),
        12 => Encode!(),
        13 => Encode!(&none),
        14 => Encode!(&vec![("x", 1u32)]),
        15 => Encode!(&vec![(1u8, vec!["x"])]),
        16 => Encode!(&vec![("x", vec![1u8]), ("x", vec![2])]),
        17 => Encode!(&vec![(1u8, 1u32), (1, 2), (0, 3)]),
        18 => Encode!(&true),
        19 => Encode!(&Data { data: 1u8 }),
        20 => Encode!(&Data { data: vec![(1u8, vec![1u8])] }),
        21 => Encode!(&Data { data: vec![(Key2 { key: 1, page: 0 }, vec![1u8])] }),
        22 => Encode!(&Data { data: vec![(MK { key: 1, page: 0 }, vec!["x"])] }),
        23 => Encode!(&Data { data: vec![(MK { key: 1, page: 9 }, vec![1u8, 2]), (MK { key: 0, page: 1 }, vec![])] }),
        24 => Encode!(&vec![Some((1u8, 1u32))]),
        25 => Encode!(&vec![vec![(1u8, 1u32)]]),
        26 => Encode!(&X::make(3), &1u8),
        27 => Encode!(&1u8, &X::make(3)),
        28 => Encode!(&vec![(-1i8, 1u32)]),
        _ => Encode!(&candid::Nat::from(5)),
    }
    .map_err(|e| e.to_string())?;
    let ok = same_candid::<X>(&b)?;
    obs.steps = 1;
    obs.fp = p[1] as u64 * 7 + p[0] as u64 + ((ok as u64) << 40);
    obs.text = format!("accepted: {ok}");
    Ok(())
}
const CANDID_TYPED: i64 = 30;
pub fn candid_typed(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    pair!(p[0], candid_typed_t(p, obs))
}

pub fn c19(ctx: &Ctx) {
    let fi = ctx.scen("fmap");
    // Histories before the failure: every tree shape, and every short sequence with operations that
    // hand out references.
    let mut pre: Vec<Vec<i64>> = hist::shapes(ctx, 1, 0, ctx.pick(6, 9), false).into_iter().map(|s| s.hist).collect();
    let ns = pre.len();
    let mut alpha = vec![op(CLEAR, 0)];
    for i in [8, 16, 24] {
        for k in [hist::INS, hist::REM, hist::GETMUT, INSW] {
            alpha.push(op(k, i));
        }
    }
    let mut level: Vec<Vec<i64>> = vec![vec![op(hist::INS, 16)]];
    for _ in 0..ctx.pick(3, 4) {
        pre.extend(level.iter().cloned());
        level = level.iter().flat_map(|h| alpha.iter().map(|o| h.iter().copied().chain([*o]).collect())).collect();
    }
    ctx.note(format!("histories: {ns} tree shapes and {} sequences of up to {} operations", pre.len() - ns, ctx.pick(3, 4)));
    let keys_of = |h: &Vec<i64>| -> Vec<i64> {
        let mut keys: Vec<i64> = h.iter().map(|o| hist::op_key(*o)).collect();
        keys.push(4);
        keys.sort();
        keys.dedup();
        keys
    };
    ctx.par_items(&pre, |h| {
        let keys = keys_of(h);
        let post = [-1, op(hist::INS, 12), op(hist::INS, 16), op(hist::REM, 16), op(hist::GETMUT, 16), op(E_MODINS, 24), op(hist::REME, keys[0])];
        for kind in 0..FAULTS {
            for which in [0, 1] {
                // These do not depend on a key.
                let some: &[i64] = if [7, 10, 11, 12, 13, 14, 15, 18, 19, 20].contains(&kind) { &keys[..1] } else { &keys };
                for i in some {
                    for o in post {
                        let mut nth = 0;
                        loop {
                            let mut p = vec![which, kind, *i, nth, o];
                            p.extend(h);
                            match ctx.run(fi, &p) {
                                Some(x) if !x.trivial => nth += 1,
                                _ => break,
                            }
                            // After every point the state is looked at, after some it is continued.
                            if o != -1 && nth > 2 {
                                break;
                            }
                        }
                    }
                }
            }
        }
    });
    ctx.note(format!("failures: every point of {FAULTS} kinds, at every key, after every history, then continued with each of 6 operations"));
    let ti = ctx.scen("ftrait");
    ctx.par_items(&pre, |h| {
        let keys = keys_of(h);
        let post = [-1, op(hist::INS, 12), op(hist::REM, 16), op(hist::GETMUT, 16), op(hist::REME, keys[0])];
        for which in [0, 1] {
            for kind in 0..TRAITS {
                let some: &[i64] = if [12, 14, 15, 21, 22, 23, 24].contains(&kind) { &keys[..1] } else { &keys };
                for i in some {
                    for mask in 0..3 {
                        for o in post {
                            let mut nth = 0;
                            loop {
                                let mut p = vec![which, kind, *i, mask, nth, o];
                                p.extend(h);
                                match ctx.run(ti, &p) {
                                    Some(x) if !x.trivial => nth += 1,
                                    _ => break,
                                }
                            }
                        }
                    }
                }
            }
        }
    });
    ctx.note(format!("failing keys and values: every comparison, label and hash of the caller's types in {TRAITS} operations, at every key, after every history, then continued with each of 4 operations"));
    // Bigger maps: failures at keys throughout, and gaps.
    let mut big = vec![];
    for n in ctx.pick(vec![12, 21, 33], vec![12, 16, 21, 33, 64, 100]) {
        for pat in 0..hist::PATTERNS {
            let mut h: Vec<i64> = hist::pattern(pat, n).into_iter().map(|k| op(hist::INS, 8 + k * 8)).collect();
            if pat % 2 == 1 {
                h.extend(hist::pattern((pat + 3) % hist::PATTERNS, n).into_iter().take(n as usize / 3).map(|k| op(hist::REM, 8 + k * 8)));
            }
            big.push(h);
        }
    }
    let keys_of = |h: &Vec<i64>| -> Vec<i64> {
        if h.len() < 12 {
            return keys_of(h);
        }
        let n = h.iter().map(|o| hist::op_key(*o)).max().unwrap() / 8;
        (0..=n).step_by(ctx.pick(n as usize / 8, n as usize / 16).max(1)).flat_map(|k| [8 + k * 8, 4 + k * 8]).collect()
    };
    let todo = [(fi, 0i64), (ti, 0), (ti, 1), (ti, 2)];
    let work: Vec<(usize, i64, i64, &Vec<i64>)> = todo.iter().flat_map(|(s, m)| (0..if *s == fi { FAULTS } else { TRAITS }).flat_map(|k| big.iter().map(move |h| (*s, *m, k, h)).collect::<Vec<_>>()).collect::<Vec<_>>()).collect();
    ctx.par(work.len() as u64, |x| {
        let (s, mask, kind, h) = work[x as usize];
        let keys = keys_of(h);
        let one = if s == fi { [7, 10, 11, 12, 13, 14, 15, 18, 19, 20].contains(&kind) } else { [12, 14, 15, 21, 22, 23, 24].contains(&kind) };
        for i in if one { &keys[..1] } else { &keys[..] } {
            let mut nth = 0;
            loop {
                let post = [-1, op(hist::REM, keys[(nth as usize * 2 + 2) % keys.len()]), op(hist::INS, keys[(nth as usize * 2 + 1) % keys.len()])][(nth + kind) as usize % 3];
                let mut p = vec![(kind + i / 4) % 2, kind, *i];
                if s == ti {
                    p.push(mask);
                }
                p.extend([nth, post]);
                p.extend(h);
                match ctx.run(s, &p) {
                    Some(x) if !x.trivial => nth += 1,
                    _ => break,
                }
            }
        }
    });
    ctx.note(format!("maps of {} keys: {} histories, every point of every kind of failure at keys and gaps throughout", ctx.pick("12 to 33", "12 to 100"), big.len()));
    let si = ctx.scen("fseq");
    let mut v = vec![];
    for kind in 0..SEQ_FAULTS {
        for len in 0..ctx.pick(6, 12) {
            for nth in 0..24 {
                for more in [0, 3] {
                    v.push(vec![kind, nth, len, more]);
                }
            }
        }
    }
    ctx.par_items(&v, |p| {
        ctx.run(si, p);
    });
    let xi = ctx.scen("fdeep");
    let mut v: Vec<Vec<i64>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..ctx.pick(5, 7) {
        let to = v.len();
        for h in from..to {
            for k in 1..=3 {
                let mut x = v[h].clone();
                x.push(k);
                v.push(x);
            }
        }
        from = to;
    }
    ctx.par_items(&v, |h| {
        for coll in 0..4 {
            for kind in 0..DEEP {
                for i in 0..=3 {
                    for mask in 0..4 {
                        let mut nth = 0;
                        loop {
                            let mut p = vec![coll, kind, i, mask, nth];
                            p.extend(h);
                            match ctx.run(xi, &p) {
                                Some(x) if !x.trivial => nth += 1,
                                _ => break,
                            }
                        }
                    }
                }
            }
        }
    });
    ctx.note(format!("failing keys and items in paged collections and maps of sequences: every comparison, label, hash and clone in {DEEP} operations after every sequence of up to {} items of 3 keys, page sizes 1, 2, 3", ctx.pick(5, 7)));
    let gi = ctx.scen("fgroup");
    let mut v = vec![];
    for kind in 0..6 {
        for nth in 0..6 {
            for n in 1..=3 {
                v.push(vec![kind, nth, n]);
            }
        }
    }
    ctx.par_items(&v, |p| {
        ctx.run(gi, p);
    });
    ctx.note(format!("failures in sequences ({SEQ_FAULTS} kinds) and groups (6 kinds): every point"));
    let di = ctx.scen("fdata");
    let mut v = vec![];
    for t in 0..5 {
        for n in 0..ctx.pick(6, 12) {
            for how in [0, 1, 4] {
                v.push(vec![t, how, n, 0]);
            }
            for at in 0..ctx.pick(110, 250) {
                v.push(vec![t, 2, n, at]);
                v.push(vec![t, 3, n, at]);
            }
        }
    }
    ctx.par_items(&v, |p| {
        ctx.run(di, p);
    });
    ctx.note("damaged data: collections of 5 types, cut at every byte, every byte replaced by every other, left out, doubled, swapped; read by slice, reader and Candid, against the ordinary collection");
    let ei = ctx.scen("fevery");
    for t in 0..5 {
        ctx.run(ei, &[t, 0]);
        ctx.par(256, |a| {
            ctx.run(ei, &[t, 0, a as i64]);
            for b in 0..256 {
                let heads: bool = !ctx.quick() || matches!(a, 0x80..=0xbf | 0x9f | 0x40..=0x43 | 0xd8);
                ctx.run(ei, &[t, heads as i64, a as i64, b]);
            }
        });
    }
    ctx.note(format!("any data: every byte string of length <= 2 and of length 3 ({})", ctx.pick("starting an array, map, tag or byte string", "any")));
    let ti = ctx.scen("ftyped");
    let n = ctx.pick(40_000, 4_000_000);
    for t in 0..5 {
        ctx.par(n, |c| {
            ctx.run(ti, &[t, c as i64]);
        });
    }
    ctx.note(format!("mistyped data: {n} value trees of depth <= 2"));
    let ci = ctx.scen("fcandid");
    ctx.par(5 * CANDID_TYPED as u64, |x| {
        ctx.run(ci, &[x as i64 % 5, x as i64 / 5]);
    });
    ctx.note(format!("mistyped Candid data: {CANDID_TYPED} kinds"));
}
