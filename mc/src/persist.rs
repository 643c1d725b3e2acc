//! Round trips through serde and Candid, in the middle of histories, against ordinary collections.
use crate::engine::{Ctx, Fp, Obs};
use crate::hist::ck;
use crate::paged::{self, PK};
use crate::seq::{chain, IT};
use crate::spec::{self, Look, T};
use candid::{CandidType, Decode, Encode, Principal};
use certified_vars::{AsHashTree, Map, Seq};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::BTreeMap;
use std::fmt::Debug;

pub trait Ser: Debug + Serialize + DeserializeOwned + CandidType + for<'a> candid::Deserialize<'a> + 'static {}
impl<X: Debug + Serialize + DeserializeOwned + CandidType + for<'a> candid::Deserialize<'a> + 'static> Ser for X {}

/// Values, with the ordinary value they correspond to.
pub trait PV: AsHashTree + Ser {
    type Plain: Ser + PartialEq + Clone;
    fn plain(i: i64) -> Self::Plain;
    fn mk(i: i64) -> Self;
    fn to_plain(&self) -> Self::Plain;
    /// The tree of the value, up to the way entries of a level are forked.
    fn tree(p: &Self::Plain) -> T;
}

/// The same tree with the entries of every level in a list.
pub fn norm(t: &T) -> T {
    list(
        spec::flat(t)
            .into_iter()
            .map(|x| match x {
                T::L(l, s) => T::L(l.clone(), Box::new(norm(s))),
                x => x.clone(),
            })
            .collect(),
    )
}
pub fn list(v: Vec<T>) -> T {
    let mut it = v.into_iter().rev();
    match it.next() {
        None => T::E,
        Some(last) => it.fold(last, |acc, x| spec::f(x, acc)),
    }
}

macro_rules! simple {
    ($t:ty, $mk:expr, $b:expr) => {
        impl PV for $t {
            type Plain = $t;
            fn plain(i: i64) -> $t {
                ($mk)(i)
            }
            fn mk(i: i64) -> $t {
                ($mk)(i)
            }
            fn to_plain(&self) -> $t {
                self.clone()
            }
            fn tree(p: &$t) -> T {
                T::V(($b)(p))
            }
        }
    };
}
simple!(u32, |i| [0u32, 1, 23, 24, 255, 256, 65536, u32::MAX][i as usize % 8], |p: &u32| p.to_be_bytes().to_vec());
simple!(i64, |i| [0i64, -1, 1, i64::MIN, i64::MAX, -24, -25, -257][i as usize % 8], |p: &i64| p.to_be_bytes().to_vec());
simple!(String, |i| ["", "a", "\u{e9}", "a\0b"][i as usize % 4].to_string() + &"x".repeat(i as usize * 9), |p: &String| p.as_bytes().to_vec());
simple!(Vec<u8>, |i| vec![(i as u8).wrapping_mul(60); i as usize * 5], |p: &Vec<u8>| p.clone());
simple!(bool, |i| i % 2 == 1, |p: &bool| vec![*p as u8]);
simple!(f64, |i| [0.0f64, -0.0, 1.5, f64::MAX, f64::INFINITY, 1e-310, 65504.0, 0.1][i as usize % 8], |p: &f64| p.to_bits().to_be_bytes().to_vec());
simple!(Principal, |i| Principal::from_slice(&[7; 29][..(i as usize * 5) % 30]), |p: &Principal| p.as_slice().to_vec());

impl PV for Seq<u8> {
    type Plain = Vec<u8>;
    fn plain(i: i64) -> Vec<u8> {
        vec![i as u8; i as usize % 4]
    }
    fn mk(i: i64) -> Self {
        Self::plain(i).into()
    }
    fn to_plain(&self) -> Vec<u8> {
        self.as_vec().clone()
    }
    fn tree(p: &Vec<u8>) -> T {
        T::P(chain(p))
    }
}
impl<V: PV> PV for Map<u8, V> {
    type Plain = BTreeMap<u8, V::Plain>;
    fn plain(i: i64) -> Self::Plain {
        (0..i % 4).map(|j| ((j * 3) as u8, V::plain(i + j))).collect()
    }
    fn mk(i: i64) -> Self {
        (0..i % 4).rev().map(|j| ((j * 3) as u8, V::mk(i + j))).collect()
    }
    fn to_plain(&self) -> Self::Plain {
        self.iter().map(|(k, v)| (*k, v.to_plain())).collect()
    }
    fn tree(p: &Self::Plain) -> T {
        list(p.iter().map(|(k, v)| spec::l(&[*k], V::tree(v))).collect())
    }
}

fn verify<K: PK, V: PV>(m: &Map<K, V>, b: &BTreeMap<K, V::Plain>, deep: bool) -> Result<(), String> {
    ck(m.len() == b.len() && m.is_empty() == b.is_empty(), || format!("len() is {}, expected {}", m.len(), b.len()))?;
    let got: Vec<(&K, V::Plain)> = m.iter().map(|(k, v)| (k, v.to_plain())).collect();
    ck(got.len() == b.len() && got.iter().zip(b).all(|(x, y)| x.0 == y.0 && x.1 == *y.1), || format!("entries are {got:?}, expected {b:?}"))?;
    let root = m.root_hash();
    let full = spec::of(&m.as_hash_tree());
    ck(spec::digest(&full) == root, || "the root hash is not the digest of the full tree".into())?;
    let want = list(b.iter().map(|(k, v)| spec::l(&k.lb(), V::tree(v))).collect());
    ck(norm(&full) == want, || format!("the full tree shows {:?}, expected {want:?}", norm(&full)))?;
    for i in 0..5 {
        let k = K::mk(i);
        let w = spec::of(&m.witness(&k));
        ck(spec::digest(&w) == root, || format!("witness of {k:?}: digest"))?;
        match b.get(&k) {
            Some(p) => {
                ck(m.get(&k).map(|v| v.to_plain()).as_ref() == Some(p), || format!("get({k:?})"))?;
                match spec::lookup(&w, &k.lb()) {
                    Look::Found(t) => ck(norm(t) == V::tree(p), || format!("witness of {k:?} shows {t:?}"))?,
                    l => return Err(format!("witness of {k:?}: {l:?}")),
                }
            }
            None => {
                ck(m.get(&k).is_none(), || format!("get({k:?}) finds something"))?;
                ck(spec::lookup(&w, &k.lb()) == Look::Absent, || format!("witness of the absent {k:?}"))?;
            }
        }
        for j in (i..5).filter(|_| deep) {
            let r = spec::of(&m.witness_value_range::<K, K>(&K::mk(i), &K::mk(j)));
            ck(spec::digest(&r) == root, || "range witness: digest".into())?;
            for (k, p) in b.range(K::mk(i)..=K::mk(j)) {
                match spec::lookup(&r, &k.lb()) {
                    Look::Found(t) => ck(norm(t) == V::tree(p), || format!("range witness shows {t:?} for {k:?}"))?,
                    l => return Err(format!("range witness of {k:?}: {l:?}")),
                }
            }
        }
    }
    Ok(())
}

const FORMATS: i64 = 4;
fn round<X: Ser>(x: &X, how: i64) -> Result<X, String> {
    match how {
        0 => serde_cbor::from_slice(&serde_cbor::to_vec(x).map_err(|e| format!("serialize: {e}"))?).map_err(|e| format!("deserialize: {e}")),
        1 => {
            let b = Encode!(x).map_err(|e| format!("Candid encode: {e}"))?;
            Decode!(&b, X).map_err(|e| format!("Candid decode: {e}"))
        }
        2 => serde_cbor::value::from_value(serde_cbor::value::to_value(x).map_err(|e| format!("to value: {e}"))?).map_err(|e| format!("from value: {e}")),
        _ => {
            let mut b = vec![];
            serde_cbor::ser::to_vec_packed(x).map(|v| b = v).map_err(|e| format!("serialize: {e}"))?;
            serde_cbor::from_reader(&b[..]).map_err(|e| format!("deserialize from a reader: {e}"))
        }
    }
}

/// Formats for people to read, and formats that do not describe themselves: written like the ordinary
/// collection, and read wherever that can be read.
fn others<X: Ser, P: Ser + PartialEq>(x: &X, plain: &P, ok: impl Fn(&X) -> Result<(), String>) -> Result<(), String> {
    let (mine, theirs) = (serde_json::to_vec(x).ok(), serde_json::to_vec(plain).ok());
    ck(mine == theirs, || format!("JSON is {:?}, that of an ordinary collection {:?}", mine.as_deref().map(String::from_utf8_lossy), theirs.as_deref().map(String::from_utf8_lossy)))?;
    if let Some(b) = theirs.filter(|b| serde_json::from_slice::<P>(b).is_ok_and(|p| p == *plain)) {
        let c: X = serde_json::from_slice(&b).map_err(|e| format!("JSON: {e}"))?;
        ok(&c).map_err(|e| format!("from JSON: {e}"))?;
        let c: X = serde_json::from_reader(&b[..]).map_err(|e| format!("JSON from a reader: {e}"))?;
        ok(&c).map_err(|e| format!("from JSON from a reader: {e}"))?;
        let c: X = serde_json::from_str(&serde_json::to_string_pretty(x).map_err(|e| e.to_string())?).map_err(|e| format!("JSON with blanks: {e}"))?;
        ok(&c).map_err(|e| format!("from JSON with blanks: {e}"))?;
        let v = serde_json::to_value(x).map_err(|e| format!("JSON value: {e}"))?;
        let c: X = serde_json::from_value(v).map_err(|e| format!("from a JSON value: {e}"))?;
        ok(&c).map_err(|e| format!("from a JSON value: {e}"))?;
    }
    let (mine, theirs) = (bincode::serialize(x).ok(), bincode::serialize(plain).ok());
    ck(mine == theirs, || format!("bincode is {:?}, that of an ordinary collection {:?}", mine, theirs))?;
    if let Some(b) = theirs.filter(|b| bincode::deserialize::<P>(b).is_ok_and(|p| p == *plain)) {
        let c: X = bincode::deserialize(&b).map_err(|e| format!("bincode: {e}"))?;
        ok(&c).map_err(|e| format!("from bincode: {e}"))?;
        let c: X = bincode::deserialize_from(&b[..]).map_err(|e| format!("bincode from a reader: {e}"))?;
        ok(&c).map_err(|e| format!("from bincode from a reader: {e}"))?;
    }
    Ok(())
}

/// The encodings of the map are those of an ordinary one, and either reads the other.
fn cross<K: PK, V: PV>(m: &Map<K, V>, b: &BTreeMap<K, V::Plain>) -> Result<(), String> {
    let mine = serde_cbor::to_vec(m).map_err(|e| e.to_string())?;
    let theirs = serde_cbor::to_vec(b).map_err(|e| e.to_string())?;
    ck(mine == theirs, || format!("encoded as {}, an ordinary map as {}", spec::hex(&mine), spec::hex(&theirs)))?;
    let back: BTreeMap<K, V::Plain> = serde_cbor::from_slice(&mine).map_err(|e| format!("read as an ordinary map: {e}"))?;
    ck(back == *b, || "read as an ordinary map".into())?;
    let c: Map<K, V> = serde_cbor::from_slice(&theirs).map_err(|e| format!("read from an ordinary map: {e}"))?;
    verify(&c, b, false).map_err(|e| format!("read from an ordinary map: {e}"))?;
    let mine = Encode!(m).map_err(|e| e.to_string())?;
    let plain: Vec<(K, V::Plain)> = b.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let theirs = Encode!(&plain).map_err(|e| e.to_string())?;
    ck(mine == theirs, || format!("encoded in Candid as {}, a vector of records as {}", spec::hex(&mine), spec::hex(&theirs)))?;
    let back = Decode!(&mine, Vec<(K, V::Plain)>).map_err(|e| format!("Candid read as a vector of records: {e}"))?;
    ck(back == plain, || "Candid read as a vector of records".into())?;
    let c = Decode!(&theirs, Map<K, V>).map_err(|e| format!("Candid read from a vector of records: {e}"))?;
    verify(&c, b, false).map_err(|e| format!("Candid read from a vector of records: {e}"))?;
    others::<Map<K, V>, BTreeMap<K, V::Plain>>(m, b, |c| verify(c, b, false))?;
    // Next to other arguments.
    let two = Encode!(&1u8, m, &"x").map_err(|e| e.to_string())?;
    let (a, c, s) = Decode!(&two, u8, Map<K, V>, String).map_err(|e| format!("Candid with other arguments: {e}"))?;
    ck(a == 1 && s == "x", || "Candid arguments around the map".into())?;
    verify(&c, b, false)
}

fn step<K: PK, V: PV>(m: &mut Map<K, V>, b: &mut BTreeMap<K, V::Plain>, o: i64, n: i64) -> Result<(), String> {
    match o {
        0..=4 => {
            let (x, y) = (m.insert(K::mk(o), V::mk(n)), b.insert(K::mk(o), V::plain(n)));
            ck(x.map(|v| v.to_plain()) == y, || format!("insert of key {o} returns the wrong value"))
        }
        5..=9 => {
            let (x, y) = (m.remove(&K::mk(o - 5)), b.remove(&K::mk(o - 5)));
            ck(x.map(|v| v.to_plain()) == y, || format!("removal of key {} returns the wrong value", o - 5))
        }
        10..=13 => {
            *m = round(m, o - 10)?;
            Ok(())
        }
        o => panic!("operation {o}"),
    }
}

fn run_map<K: PK, V: PV>(ops: &[i64], obs: &mut Obs) -> Result<(), String> {
    let mut m: Map<K, V> = Map::new();
    let mut b: BTreeMap<K, V::Plain> = BTreeMap::new();
    for (n, o) in ops.iter().enumerate() {
        step(&mut m, &mut b, *o, n as i64 + 1)?;
    }
    obs.steps = ops.len() as u64;
    obs.trivial = b.is_empty();
    let mut f = Fp::new();
    f.add(format!("{b:?}").as_bytes());
    obs.fp = f.0;
    obs.text = format!("{} entries", b.len());
    cross(&m, &b)?;
    for how in 0..FORMATS {
        let d = round(&m, how)?;
        verify(&d, &b, how < 2).map_err(|e| format!("after round trip {how}: {e}"))?;
        ck(format!("{d:?}") == format!("{m:?}"), || "the round trip changes how the map prints".into())?;
        // Goes on as usual: each operation on a copy, or all of them on one.
        let (mut d, mut c) = (round(&m, how)?, b.clone());
        for i in 0..if how == 0 { 10 } else { 3 } {
            let o = if how == 0 { i } else { (how + i * 4) % 10 };
            if how == 0 && i > 0 {
                (d, c) = (round(&m, how)?, b.clone());
            }
            step(&mut d, &mut c, o, 7)?;
            verify(&d, &c, false).map_err(|e| format!("after round trip {how} and operation {o}: {e}"))?;
        }
    }
    Ok(())
}

/// Parameters: types, operations.
pub fn pmap(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let o = &p[1..];
    match p[0] {
        0 => run_map::<u8, u32>(o, obs),
        1 => run_map::<u64, Map<u8, String>>(o, obs),
        2 => run_map::<String, Vec<u8>>(o, obs),
        3 => run_map::<String, Seq<u8>>(o, obs),
        4 => run_map::<Principal, bool>(o, obs),
        5 => run_map::<[u8; 4], i64>(o, obs),
        6 => run_map::<u8, Map<u8, Map<u8, Seq<u8>>>>(o, obs),
        7 => run_map::<String, Principal>(o, obs),
        8 => run_map::<u64, f64>(o, obs),
        _ => run_map::<Principal, Map<u8, u32>>(o, obs),
    }
}
const TYPES: i64 = 10;

/// Maps with many entries. Parameters: entries, order, format.
pub fn pbig(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let (n, order, how) = (p[0], p[1], p[2]);
    let key = |i: i64| (i * 3) as u32;
    let mut m: Map<u32, u32> = Map::new();
    for i in 0..n {
        let i = match order {
            0 => i,
            1 => n - 1 - i,
            _ => i * 7919 % n,
        };
        m.insert(key(i), i as u32);
    }
    if order == 2 && n % 7919 == 0 {
        return Ok(());
    }
    obs.steps = n as u64;
    obs.fp = (n * 3 + order) as u64;
    let b: BTreeMap<u32, u32> = (0..n).map(|i| (key(i), i as u32)).collect();
    others(&m, &b, |c| {
        ck(c.iter().map(|x| (*x.0, *x.1)).eq(b.iter().map(|x| (*x.0, *x.1))) && c.root_hash() == spec::digest(&spec::of(&c.as_hash_tree())) && c.len() == b.len(), || "entries".into())
    })?;
    let mut d = round(&m, how)?;
    ck(serde_cbor::to_vec(&d).ok() == serde_cbor::to_vec(&b).ok(), || "the encoding is not that of an ordinary map".into())?;
    for stage in 0..2 {
        ck(d.len() == n as usize + stage && d.iter().map(|x| (*x.0, *x.1)).eq(b.iter().map(|x| (*x.0, *x.1)).chain((0..stage).map(|_| (u32::MAX, 1)))), || "entries after the round trip".into())?;
        let root = d.root_hash();
        let t = spec::of(&d.as_hash_tree());
        ck(spec::digest(&t) == root && spec::well_formed(&t), || "the root hash does not certify the contents".into())?;
        ck(spec::labels(&t).len() == n as usize + stage, || "labels".into())?;
        for i in [0, 1, n / 2, n - 1, n] {
            let w = spec::of(&d.witness(&key(i.max(0))));
            ck(spec::digest(&w) == root, || format!("witness {i}: digest"))?;
            let l = spec::lookup(&w, &key(i.max(0)).to_be_bytes());
            let ok = if i < n && i >= 0 { l == Look::Found(&T::V((i as u32).to_be_bytes().to_vec())) } else { l == Look::Absent || n == 0 };
            ck(ok, || format!("witness {i}: {l:?}"))?;
        }
        if stage == 0 {
            d.insert(u32::MAX, 1);
        }
    }
    Ok(())
}

/// Ordinary collections whose entries come in another order (and possibly twice), and encodings
/// of unknown length. Parameters: form, entries (key * 10 + value).
pub fn pforeign(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let form = p[0];
    foreign(form, p[1..].iter().map(|x| (PK::mk(x / 10), <u32 as PV>::mk(x % 10))).collect(), obs)?;
    obs.fp = p.iter().fold(3, |a, x| a * 101 + *x as u64);
    Ok(())
}

/// Long lists of entries. Parameters: form, entries, order, step of repeated keys (0: none).
pub fn pforeignbig(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let (form, n, order, rep) = (p[0], p[1], p[2], p[3]);
    let mut es: Vec<(u8, u32)> = crate::hist::pattern(order, n).into_iter().map(|k| (k as u8, k as u32)).collect();
    if rep > 0 {
        es.extend((0..n).step_by(rep as usize).map(|k| (k as u8, 1000 + k as u32)));
    }
    foreign(form, es, obs)?;
    obs.fp = p.iter().fold(3, |a, x| a * 301 + *x as u64);
    Ok(())
}

fn foreign(form: i64, es: Vec<(u8, u32)>, obs: &mut Obs) -> Result<(), String> {
    let mut b: BTreeMap<u8, u32> = BTreeMap::new();
    let mut dup = false;
    for (k, v) in &es {
        dup |= b.insert(*k, *v).is_some();
    }
    obs.steps = es.len() as u64;
    let num = |o: &mut Vec<u8>, n: u32| {
        let v = serde_cbor::to_vec(&n).unwrap();
        o.extend(v);
    };
    let r: Result<Map<u8, u32>, String> = match form {
        0 | 1 => {
            let mut o = match es.len() {
                _ if form == 1 => vec![0xbf],
                n @ 0..=23 => vec![0xa0 | n as u8],
                n @ 24..=255 => vec![0xb8, n as u8],
                n => vec![0xb9, (n >> 8) as u8, n as u8],
            };
            for (k, v) in &es {
                num(&mut o, *k as u32);
                num(&mut o, *v);
            }
            if form == 1 {
                o.push(0xff);
            }
            serde_cbor::from_slice(&o).map_err(|e| e.to_string())
        }
        2 => Decode!(&Encode!(&es).unwrap(), Map<u8, u32>).map_err(|e| e.to_string()),
        _ => Ok(es.iter().copied().collect()),
    };
    match r {
        Ok(m) => verify(&m, &b, true),
        Err(_) if dup && form < 3 => Ok(()),
        Err(e) => Err(format!("an ordinary map is not accepted: {e}")),
    }
}

#[derive(candid::CandidType, serde::Serialize, serde::Deserialize)]
struct State<M, S, G> {
    name: String,
    first: M,
    list: S,
    pages: G,
    rest: Vec<M>,
    choice: Choice<M>,
    last: u64,
}
#[derive(candid::CandidType, serde::Serialize, serde::Deserialize)]
enum Choice<M> {
    Nothing,
    One(M),
    Two { a: M, b: Option<M> },
}
type St = State<Map<String, u32>, Seq<u32>, certified_vars::Paged<u8, u32, 3>>;

const WRAPS: i64 = 6;
/// Collections as parts of other values. Parameters: what, entries, entries of the others.
pub fn pwrap(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let (kind, n, n2) = (p[0], p[1], p[2]);
    obs.steps = (n + n2) as u64;
    obs.fp = p.iter().fold(9, |a, x| a * 301 + *x as u64);
    let mk = |n: i64| -> (Map<String, u32>, BTreeMap<String, u32>) {
        let l = (0..n).map(|i| ("k".repeat((i * 7 % 17) as usize) + &i.to_string(), (i * i) as u32));
        (l.clone().collect(), l.collect())
    };
    let is = |m: &Map<String, u32>, n: i64, what: &str| -> Result<(), String> {
        let (_, b) = mk(n);
        ck(m.len() == b.len() && m.iter().map(|x| (x.0.clone(), *x.1)).eq(b.iter().map(|x| (x.0.clone(), *x.1))), || format!("{what}: other entries"))?;
        let t = spec::of(&m.as_hash_tree());
        ck(spec::digest(&t) == m.root_hash(), || format!("{what}: the root hash does not certify the contents"))?;
        let want: Vec<T> = b.iter().map(|(k, v)| spec::l(k.as_bytes(), T::V(v.to_be_bytes().to_vec()))).collect();
        ck(spec::flat(&t).into_iter().cloned().collect::<Vec<_>>() == want, || format!("{what}: the full tree"))
    };
    let e = |x: String| format!("kind {kind}: {x}");
    macro_rules! trip {
        ($t:ty, $v:expr) => {{
            let v: $t = $v;
            let a: $t = serde_cbor::from_slice(&serde_cbor::to_vec(&v).map_err(|x| e(x.to_string()))?).map_err(|x| e(x.to_string()))?;
            let c: $t = serde_cbor::from_reader(&serde_cbor::ser::to_vec_packed(&a).map_err(|x| e(x.to_string()))?[..]).map_err(|x| e(x.to_string()))?;
            let d = Decode!(&Encode!(&c).map_err(|x| e(x.to_string()))?, $t).map_err(|x| e(x.to_string()))?;
            [v, a, c, d]
        }};
    }
    match kind {
        0 => {
            for o in trip!(Option<Map<String, u32>>, Some(mk(n).0)) {
                is(&o.ok_or("the option is lost")?, n, "option")?;
            }
        }
        1 => {
            for o in trip!(Vec<Map<String, u32>>, vec![mk(n).0, mk(n2).0, mk(0).0, mk(n).0]) {
                ck(o.len() == 4, || "vector".into())?;
                for (m, n) in o.iter().zip([n, n2, 0, n]) {
                    is(m, n, "vector")?;
                }
            }
        }
        2 => {
            for (a, b, c) in trip!((u8, Map<String, u32>, Map<String, u32>), (7, mk(n).0, mk(n2).0)) {
                ck(a == 7, || "tuple".into())?;
                is(&b, n, "tuple")?;
                is(&c, n2, "tuple")?;
            }
        }
        3 | 4 => {
            let st = St {
                name: "state".into(),
                first: mk(n).0,
                list: (0..n as u32).collect(),
                pages: {
                    let mut g = certified_vars::Paged::new();
                    for i in 0..n {
                        g.insert((i % 3) as u8, i as u32);
                    }
                    g
                },
                rest: (0..n2 % 4).map(|i| mk(i).0).collect(),
                choice: match n2 % 3 {
                    0 => Choice::Nothing,
                    1 => Choice::One(mk(n2).0),
                    _ => Choice::Two { a: mk(n2).0, b: (kind == 3).then(|| mk(n).0) },
                },
                last: 99,
            };
            let (lh, gh) = (st.list.root_hash(), st.pages.root_hash());
            for s in trip!(St, st) {
                ck(s.name == "state" && s.last == 99, || "fields around the collections".into())?;
                is(&s.first, n, "record")?;
                crate::seq::verify(&s.list, &(0..n as u32).collect::<Vec<_>>())?;
                ck(s.list.root_hash() == lh, || "hash of the sequence".into())?;
                for k in 0..3u8 {
                    let all: Vec<u32> = (0..).map_while(|p| s.pages.get(&k, p)).flat_map(|x| x.iter().copied().collect::<Vec<_>>()).collect();
                    let want: Vec<u32> = (0..n as u32).filter(|i| i % 3 == k as u32).collect();
                    ck(all == want, || format!("pages of {k}: {all:?}"))?;
                }
                // The shape of the map of pages may be another one; its root hash certifies it all the same.
                let t = spec::of(&s.pages.as_hash_tree());
                ck(spec::digest(&t) == s.pages.root_hash(), || "root hash of the pages".into())?;
                let _ = gh;
                ck(s.rest.len() == (n2 % 4) as usize, || "vector in the record".into())?;
                for (i, m) in s.rest.iter().enumerate() {
                    is(m, i as i64, "vector in the record")?;
                }
                match (&s.choice, n2 % 3) {
                    (Choice::Nothing, 0) => (),
                    (Choice::One(m), 1) => is(m, n2, "variant")?,
                    (Choice::Two { a, b }, 2) => {
                        is(a, n2, "variant")?;
                        ck(b.is_some() == (kind == 3), || "option in the variant".into())?;
                        if let Some(b) = b {
                            is(b, n, "variant")?;
                        }
                    }
                    _ => return Err("another variant".into()),
                }
            }
        }
        _ => {
            // Text of one length as key and value.
            for len in (0..=300usize).skip(n as usize).step_by(16).chain([1000 + n as usize, 65536 + n as usize]) {
                let (k, v) = ("k".repeat(len), "v".repeat(len + n2 as usize));
                let m: Map<String, String> = [(k.clone(), v.clone()), ("m".into(), "x".into())].into_iter().collect();
                let root = m.root_hash();
                for m in trip!(Map<String, String>, m) {
                    ck(m.len() == 2 && m.get(&k) == Some(&v) && m.root_hash() == root, || format!("a text of {len} bytes"))?;
                    let w = spec::of(&m.witness(&k));
                    ck(spec::lookup(&w, k.as_bytes()) == Look::Found(&T::V(v.clone().into_bytes())) && spec::digest(&w) == root, || format!("witness of a text of {len} bytes"))?;
                }
            }
        }
    }
    Ok(())
}

/// Sequences. Parameters: type, length, format, further appends.
pub fn pseq(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    fn go<X: IT>(n: i64, how: i64, more: i64) -> Result<(), String> {
        let v: Vec<X> = (0..n).map(|i| X::mk(i * i + n)).collect();
        let mut s: Seq<X> = Seq::new();
        for (i, x) in v.iter().enumerate() {
            s.append(x.clone());
            if i == 2 {
                s = round(&s, (how + 1) % FORMATS)?;
            }
        }
        ck(serde_cbor::to_vec(&s).ok() == serde_cbor::to_vec(&v).ok(), || "the encoding is not that of a list".into())?;
        ck(Encode!(&s).ok() == Encode!(&v).ok(), || "the Candid encoding is not that of a list".into())?;
        others::<Seq<X>, Vec<X>>(&s, &v, |c| crate::seq::verify(c, &v))?;
        let l: Vec<X> = serde_cbor::from_slice(&serde_cbor::to_vec(&s).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        ck(l == v, || "read as a list".into())?;
        let t: Seq<X> = Decode!(&Encode!(&v).map_err(|e| e.to_string())?, Seq<X>).map_err(|e| e.to_string())?;
        crate::seq::verify(&t, &v)?;
        let mut d = round(&s, how)?;
        let mut w = v.clone();
        crate::seq::verify(&d, &w)?;
        for i in 0..more {
            d.append(X::mk(i));
            w.push(X::mk(i));
            crate::seq::verify(&d, &w)?;
        }
        let d = round(&d, how)?;
        crate::seq::verify(&d, &w)
    }
    obs.steps = p[1] as u64 + 2;
    obs.fp = p.iter().fold(5, |a, x| a * 1009 + *x as u64);
    match p[0] {
        0 => go::<u8>(p[1], p[2], p[3]),
        1 => go::<String>(p[1], p[2], p[3]),
        2 => go::<Vec<u8>>(p[1], p[2], p[3]),
        3 => go::<Seq<u8>>(p[1], p[2], p[3]),
        _ => go::<u32>(p[1], p[2], p[3]),
    }
}

pub fn c16(ctx: &Ctx) {
    let si = ctx.scen("pmap");
    let alpha: Vec<i64> = (0..14).collect();
    for ty in 0..TYPES {
        let d = if ty == 0 { ctx.pick(4, 5) } else { ctx.pick(3, 4) };
        ctx.sequences(si, &[ty], &alpha, d);
    }
    ctx.note(format!("maps of {TYPES} pairs of types: all histories of length <= {} (one pair: {}) of insertions and removals of 5 keys and 4 round trips; then every format, then every operation", ctx.pick(3, 4), ctx.pick(4, 5)));
    let core = [0, 2, 4, 1, 7, 10, 11];
    let d = ctx.pick(5, 6);
    ctx.sequences(si, &[0], &core, d);
    ctx.note(format!("one pair of types: all histories of length <= {d} over {} operations", core.len()));
    let sf = ctx.scen("pforeign");
    let es: Vec<i64> = (0..4).flat_map(|k| (1..3).map(move |v| k * 10 + v)).collect();
    for form in 0..4 {
        ctx.sequences(sf, &[form], &es, 5);
    }
    ctx.note("all lists of up to 5 entries over 4 keys (any order, repetitions), as CBOR maps of known and unknown length, Candid vectors, iterators");
    let sl = ctx.scen("pforeignbig");
    let mut v = vec![];
    for n in (6..=ctx.pick(40, 120)).chain([128, 200, 255, 256]) {
        for order in 0..crate::hist::PATTERNS {
            for rep in [0, 1, n / 3] {
                for form in 0..4 {
                    v.push(vec![form, n, order, rep]);
                }
            }
        }
    }
    let k = v.len();
    ctx.par_items(&v, |p| {
        ctx.run(sl, p);
    });
    ctx.note(format!("{k} lists of 6 to 512 entries in eight orders, without and with repeated keys, in the same four forms"));
    let sw = ctx.scen("pwrap");
    let mut v = vec![];
    for kind in 0..WRAPS {
        for n in 0..ctx.pick(20, 60) {
            for n2 in [0, 1, 2, 5, 9] {
                v.push(vec![kind, n, n2]);
            }
        }
    }
    ctx.par_items(&v, |p| {
        ctx.run(sw, p);
    });
    ctx.note(format!("collections inside {WRAPS} kinds of other values: options, vectors, tuples, records, variants, arguments; text keys and values of every length up to 300"));
    let sb = ctx.scen("pbig");
    let mut v = vec![];
    for n in (1..=ctx.pick(70, 300)).chain(if ctx.quick() { vec![255, 256, 257, 4096, 65536] } else { vec![255, 256, 257, 1000, 4096, 65535, 65536] }) {
        for order in 0..3 {
            for how in 0..FORMATS {
                v.push(vec![n, order, how]);
            }
        }
    }
    v.sort_by_key(|x| -x[0]);
    ctx.par_items(&v, |p| {
        ctx.run(sb, p);
    });
    ctx.note("maps of every size up to 70 (thorough: 300) and some up to 65536, three orders of insertion, every format");
    let ss = ctx.scen("pseq");
    let mut v = vec![];
    for ty in 0..5 {
        for n in (0..=ctx.pick(60, 300)).chain([255, 256, 257, 1000]) {
            for how in 0..FORMATS {
                v.push(vec![ty, n, how, 2]);
            }
        }
    }
    ctx.par_items(&v, |p| {
        ctx.run(ss, p);
    });
    ctx.note("sequences of five types and every length up to 60 and some up to 1000, every format");
    let mut v = vec![];
    for ty in [0, 1, 4] {
        for n in [1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8193, 16384, 16385, 32769, 65535, 65536, 65537, 100_000] {
            for how in 0..FORMATS {
                v.push(vec![ty, n, how, 1]);
            }
        }
    }
    v.sort_by_key(|x| -x[1]);
    ctx.par_items(&v, |p| {
        ctx.run(ss, p);
    });
    ctx.note("sequences of three types with up to 100000 items, every format");
    paged::plan(ctx, paged::PERSIST);
}
