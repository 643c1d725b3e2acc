//! Ownership: keys and values that know whether they are alive, in every history of a bounded
//! space, under an allocator that notices stray accesses, double frees and leaks.
use crate::alloc;
use crate::engine::{self, guarded, Ctx, Fp, Obs};
use crate::hist::{self, ck, op, op_key, SHIFT};
use certified_vars::Paged;
use candid::types::Type;
use candid::{CandidType, Decode, Encode};
use certified_vars::label::{Label, Prefix};
use certified_vars::rbtree::entry::Entry;
use certified_vars::rbtree::iterator::RbTreeIterator;
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, Group, GroupBuilder, Hash, HashTree, Map, Seq};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::borrow::{Borrow, Cow};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::BTreeMap;

#[derive(Default)]
struct Reg {
    /// 0 never made, 1 alive, 2 dropped
    st: Vec<u8>,
    keys: i64,
    vals: i64,
    err: Option<&'static str>,
}

thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg::default());
}

const MAGIC: u64 = 0x5eed_0000_c0de_0000;

pub const F_CMP: u32 = 1;
pub const F_LABEL: u32 = 2;
pub const F_HASH: u32 = 4;
pub const F_CLONE: u32 = 8;
pub const F_DEFAULT: u32 = 16;
pub const F_SER: u32 = 32;
pub const F_DE: u32 = 64;
pub const F_FMT: u32 = 128;
thread_local! {
    /// What fails, after how many calls, by a panic, and how often it did.
    static FAULT: Cell<(u32, u64, bool, u64)> = const { Cell::new((0, 0, true, 0)) };
}
/// From now on call number `nth` of what `mask` selects fails.
pub fn arm(mask: u32, nth: u64, panic: bool) {
    FAULT.with(|f| f.set((mask, nth, panic, 0)));
}
/// Ends the failures and tells if there was one.
pub fn disarm() -> bool {
    FAULT.with(|f| f.replace((0, 0, true, 0)).3 > 0)
}
/// A call of `kind`: panics, or is true when it has to fail.
pub fn tick(kind: u32) -> bool {
    FAULT.with(|f| {
        let (mask, left, panic, n) = f.get();
        if mask & kind == 0 {
            return false;
        }
        if left > 0 {
            f.set((mask, left - 1, panic, n));
            return false;
        }
        f.set((0, 0, panic, n + 1));
        if panic {
            panic!("injected");
        }
        true
    })
}

thread_local! {
    /// The next answers of comparisons (base 3), how many of them there are, and how many comparisons
    /// there have been.
    static LIES: Cell<(u64, u32, u32)> = const { Cell::new((0, 0, 0)) };
}
fn lie() -> Option<Ordering> {
    LIES.with(|l| {
        let (x, n, c) = l.get();
        if n == 0 {
            l.set((0, 0, c + 1));
            return None;
        }
        l.set((x / 3, n - 1, c + 1));
        Some([Ordering::Less, Ordering::Equal, Ordering::Greater][(x % 3) as usize])
    })
}

/// Part of every key and value: an identity that is alive from `new` to `drop`.
pub struct Tok {
    id: u32,
    key: bool,
    heap: Box<u64>,
}
impl Tok {
    fn new(key: bool) -> Tok {
        REG.with(|r| {
            let r = &mut *r.borrow_mut();
            r.st.push(1);
            if key {
                r.keys += 1
            } else {
                r.vals += 1
            }
            let id = r.st.len() as u32 - 1;
            Tok { id, key, heap: Box::new(MAGIC ^ id as u64) }
        })
    }
    fn bad(&self) -> bool {
        REG.with(|r| r.borrow().st.get(self.id as usize) != Some(&1))
    }
    pub fn touch(&self) {
        if self.bad() || *self.heap != MAGIC ^ self.id as u64 {
            flag("a key or value was used after it was dropped, or memory that is none was used as one");
        }
    }
}
fn flag(m: &'static str) {
    REG.with(|r| {
        r.borrow_mut().err.get_or_insert(m);
    })
}
impl Drop for Tok {
    fn drop(&mut self) {
        if self.bad() {
            flag("a key or value was dropped twice");
            // Its memory is gone already.
            std::mem::forget(std::mem::replace(&mut self.heap, Box::new(0)));
            return;
        }
        self.touch();
        REG.with(|r| {
            let r = &mut *r.borrow_mut();
            r.st[self.id as usize] = 2;
            if self.key {
                r.keys -= 1
            } else {
                r.vals -= 1
            }
        })
    }
}

pub struct Tk {
    pub k: i64,
    pub t: Tok,
}
impl Tk {
    pub fn new(k: i64) -> Tk {
        Tk { k, t: Tok::new(true) }
    }
    pub fn id(&self) -> u32 {
        self.t.touch();
        self.t.id
    }
}
impl Clone for Tk {
    fn clone(&self) -> Tk {
        self.t.touch();
        tick(F_CLONE);
        Tk::new(self.k)
    }
}
impl PartialEq for Tk {
    fn eq(&self, o: &Tk) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Tk {}
impl PartialOrd for Tk {
    fn partial_cmp(&self, o: &Tk) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tk {
    fn cmp(&self, o: &Tk) -> Ordering {
        self.t.touch();
        o.t.touch();
        tick(F_CMP);
        match lie() {
            Some(x) => x,
            None => self.k.cmp(&o.k),
        }
    }
}
impl std::fmt::Debug for Tk {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.t.touch();
        if tick(F_FMT) {
            return Err(std::fmt::Error);
        }
        write!(f, "{}", self.k)
    }
}
impl Label for Tk {
    fn as_label(&self) -> Cow<[u8]> {
        self.t.touch();
        tick(F_LABEL);
        Cow::Owned(self.k.to_be_bytes().to_vec())
    }
}

pub struct Tv {
    pub v: u8,
    pub t: Tok,
}
impl Tv {
    pub fn new(v: u8) -> Tv {
        Tv { v, t: Tok::new(false) }
    }
    pub fn id(&self) -> u32 {
        self.t.touch();
        self.t.id
    }
}
impl Default for Tv {
    fn default() -> Tv {
        tick(F_DEFAULT);
        Tv::new(0)
    }
}
impl Clone for Tv {
    fn clone(&self) -> Tv {
        self.t.touch();
        tick(F_CLONE);
        Tv::new(self.v)
    }
}
impl std::fmt::Debug for Tv {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.t.touch();
        if tick(F_FMT) {
            return Err(std::fmt::Error);
        }
        write!(f, "{}", self.v)
    }
}
impl AsHashTree for Tv {
    fn root_hash(&self) -> Hash {
        self.t.touch();
        tick(F_HASH);
        crate::spec::leaf_digest(&[self.v])
    }
    fn as_hash_tree(&self) -> HashTree<'_> {
        self.t.touch();
        tick(F_HASH);
        HashTree::Leaf(Cow::Owned(vec![self.v]))
    }
}

impl Borrow<i64> for Tk {
    fn borrow(&self) -> &i64 {
        self.t.touch();
        &self.k
    }
}
impl Prefix<i64> for Tk {}
impl Serialize for Tk {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.t.touch();
        if tick(F_SER) {
            return Err(serde::ser::Error::custom("injected"));
        }
        self.k.serialize(s)
    }
}
impl Serialize for Tv {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.t.touch();
        if tick(F_SER) {
            return Err(serde::ser::Error::custom("injected"));
        }
        self.v.serialize(s)
    }
}
impl<'de> Deserialize<'de> for Tk {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Tk, D::Error> {
        if tick(F_DE) {
            return Err(serde::de::Error::custom("injected"));
        }
        Ok(Tk::new(i64::deserialize(d)?))
    }
}
impl<'de> Deserialize<'de> for Tv {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Tv, D::Error> {
        if tick(F_DE) {
            return Err(serde::de::Error::custom("injected"));
        }
        Ok(Tv::new(u8::deserialize(d)?))
    }
}
impl CandidType for Tk {
    fn _ty() -> Type {
        Type::Int64
    }
    fn idl_serialize<S: candid::types::Serializer>(&self, s: S) -> Result<(), S::Error> {
        self.t.touch();
        tick(F_SER);
        s.serialize_int64(self.k)
    }
}
impl CandidType for Tv {
    fn _ty() -> Type {
        Type::Nat8
    }
    fn idl_serialize<S: candid::types::Serializer>(&self, s: S) -> Result<(), S::Error> {
        self.t.touch();
        tick(F_SER);
        s.serialize_nat8(self.v)
    }
}

macro_rules! candid_fns {
    ($enc:ident, $dec:ident, $t:ty) => {
        /// One copy each: the identity of a type in Candid is the address of a function.
        #[inline(never)]
        pub fn $enc(x: &$t) -> Result<Vec<u8>, String> {
            Encode!(x).map_err(|e| e.to_string())
        }
        #[inline(never)]
        pub fn $dec(b: &[u8]) -> Result<$t, String> {
            Decode!(b, $t).map_err(|e| e.to_string())
        }
    };
}
candid_fns!(enc_map, dec_map, Map<Tk, Tv>);
candid_fns!(enc_seq, dec_seq, Seq<Tv>);
/// Candid remembers the types it has seen in the last encoding, per thread: that memory is nobody's
/// leak. Brings it to a fixed state.
fn warm() {
    thread_local! {
        static DONE: Cell<bool> = const { Cell::new(false) };
    }
    if !DONE.with(|d| d.replace(true)) {
        let _ = dec_map(&enc_map(&Map::new()).unwrap());
        let _ = dec_seq(&enc_seq(&Seq::new()).unwrap());
    }
    let _ = enc_seq(&Seq::new());
}

thread_local! {
    static ONLY: Cell<bool> = const { Cell::new(false) };
}

/// The failures of C19, of which only what becomes of keys, values and memory counts.
/// Parameters: scenario, its parameters...
pub fn own_fault(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    use crate::faults;
    let f = [faults::fmap, faults::ftrait, faults::fseq, faults::fdeep, faults::fgroup][p[0] as usize];
    ONLY.with(|o| o.set(true));
    let r = engine::guarded(|| f(&p[1..], obs));
    ONLY.with(|o| o.set(false));
    match r {
        Ok(r) => r,
        Err(m) => Err(format!("panic: {m}")),
    }
}

/// Runs `f` with an empty registry; afterwards nothing it made may be left.
pub fn owned(f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    warm();
    REG.with(|r| {
        let r = &mut *r.borrow_mut();
        *r = Reg { st: std::mem::take(&mut r.st), ..Reg::default() };
        r.st.clear();
        r.st.reserve(1 << 14);
    });
    disarm();
    engine::clear_panic();
    let base = alloc::live();
    if ONLY.with(|o| o.get()) {
        // What the operations did is not the question here.
        drop(engine::guarded(f));
    } else {
        f()?;
    }
    warm();
    engine::clear_panic();
    let now = alloc::live();
    reg_ok()?;
    let (k, v) = counts();
    ck(k == 0 && v == 0, || format!("{k} keys and {v} values are still alive after everything was dropped"))?;
    ck(now == base, || format!("{} blocks of memory are leaked", now - base))?;
    alloc::check_quarantine();
    Ok(())
}
pub fn reg_ok() -> Result<(), String> {
    REG.with(|r| match r.borrow().err {
        None => Ok(()),
        Some(m) => Err(m.to_string()),
    })
}
pub fn counts() -> (i64, i64) {
    REG.with(|r| (r.borrow().keys, r.borrow().vals))
}
fn alive(id: u32) -> bool {
    REG.with(|r| r.borrow().st.get(id as usize) == Some(&1))
}

pub const E_ABANDON: i64 = 4;
pub const E_INTOKEY: i64 = 5;
pub const E_ORINS: i64 = 6;
pub const E_ORWITH: i64 = 7;
pub const E_ORKEY: i64 = 8;
pub const E_MODINS: i64 = 9;
pub const E_MOD: i64 = 10;
pub const E_GETMUT: i64 = 11;
pub const E_INTOMUT: i64 = 12;
pub const E_REM: i64 = 13;
pub const E_REME: i64 = 14;
pub const E_DEF: i64 = 15;
pub const WIT: i64 = 16;
pub const ITER: i64 = 17;
pub const INSW: i64 = 18;
pub const RANGE: i64 = 19;
const KEYED: i64 = 20;
pub const CLEAR: i64 = 20;
pub const REBUILD: i64 = 21;
pub const FMT: i64 = 22;
pub const TAKE: i64 = 23;
const KINDS: i64 = 24;

pub enum Sut {
    M(Map<Tk, Tv>),
    R(RbTree<Tk, Tv>),
}
impl Sut {
    pub fn new(w: i64) -> Sut {
        if w == 0 {
            Sut::M(Map::new())
        } else {
            Sut::R(RbTree::new())
        }
    }
    pub fn tree(&self) -> &RbTree<Tk, Tv> {
        match self {
            Sut::M(m) => m.as_tree(),
            Sut::R(r) => r,
        }
    }
    pub fn entry(&mut self, k: Tk) -> Entry<Tk, Tv> {
        match self {
            Sut::M(m) => m.entry(k),
            Sut::R(r) => r.entry(k),
        }
    }
}

/// key -> identities of the key and the value (`None` for a key: either of two instances)
pub type Model = BTreeMap<i64, (Vec<u32>, u32)>;

pub fn state(s: &Sut, m: &Model, held: (i64, i64)) -> Result<(), String> {
    reg_ok()?;
    let (k, v) = counts();
    let n = m.len() as i64;
    ck(k == n + held.0, || format!("{n} keys are in the map and {} with the caller, but {k} are alive", held.0))?;
    ck(v == n + held.1, || format!("{n} values are in the map and {} with the caller, but {v} are alive", held.1))?;
    for (i, (ks, v)) in m {
        ck(ks.iter().any(|k| alive(*k)), || format!("the key {i} is in the map but was dropped"))?;
        ck(alive(*v), || format!("the value of {i} is in the map but was dropped"))?;
    }
    ck(s.tree().len() == m.len(), || format!("len is {} instead of {n}", s.tree().len()))
}

pub fn apply(s: &mut Sut, m: &mut Model, o: i64, n: u8) -> Result<(), String> {
    let (kind, i) = (o >> SHIFT, op_key(o));
    let had = m.get(&i).cloned();
    let mine = |x: &Option<Tv>, what: &str| {
        let a = x.as_ref().map(|x| x.id());
        let b = had.as_ref().map(|x| x.1);
        ck(a == b, || format!("{what}: value number {a:?} was handed back instead of {b:?}"))
    };
    // A key that was offered for an entry that exists: it or the one in the map is dropped.
    let put = |m: &mut Model, k: u32, v: u32| {
        let e = m.entry(i).or_insert((vec![], 0));
        e.0.push(k);
        e.1 = v;
    };
    match kind {
        hist::INS | INSW => {
            let (k, v) = (Tk::new(i), Tv::new(n));
            let (ki, vi) = (k.id(), v.id());
            let old = match s {
                Sut::M(x) => x.insert(k, v),
                Sut::R(x) => {
                    let (old, r) = x.insert(k, v);
                    ck(r.id() == vi, || "the reference an insertion returned is not to the value".into())?;
                    old
                }
            };
            put(m, ki, vi);
            mine(&old, "insert")?;
            state(s, m, (0, old.is_some() as i64))?;
            drop(old);
            if kind == INSW {
                let (k, v) = (Tk::new(i), Tv::new(n));
                let (ki, mut vi) = (k.id(), v.id());
                match s {
                    Sut::M(x) => drop(x.insert(k, v)),
                    Sut::R(x) => {
                        let v2 = Tv::new(n ^ 1);
                        vi = v2.id();
                        *x.insert(k, v).1 = v2;
                    }
                }
                put(m, ki, vi);
            }
        }
        hist::REM => {
            let k = Tk::new(i);
            let old = match s {
                Sut::M(x) => x.remove(&k),
                Sut::R(x) => x.delete(&k).map(|e| e.1),
            };
            m.remove(&i);
            mine(&old, "remove")?;
            state(s, m, (1, old.is_some() as i64))?;
        }
        hist::REME => {
            let k = Tk::new(i);
            let old = match s {
                Sut::M(x) => x.remove_entry(&k),
                Sut::R(x) => x.delete(&k),
            };
            m.remove(&i);
            let h = old.is_some() as i64;
            let (ok, ov) = match old {
                Some((a, b)) => (Some(a), Some(b)),
                None => (None, None),
            };
            mine(&ov, "remove_entry")?;
            if let (Some(a), Some((ks, _))) = (&ok, &had) {
                ck(a.k == i && ks.contains(&a.id()), || "remove_entry: another key was handed back".into())?;
            }
            state(s, m, (1 + h, h))?;
        }
        hist::GETMUT => {
            let k = Tk::new(i);
            let r = match s {
                Sut::M(x) => x.get_mut(&k),
                Sut::R(x) => x.modify(&k, |v| v),
            };
            if let Some(r) = r {
                let v = Tv::new(n);
                m.get_mut(&i).ok_or("get_mut of a missing key")?.1 = v.id();
                let old = Some(std::mem::replace(r, v));
                mine(&old, "get_mut")?;
                state(s, m, (1, 1))?;
            }
        }
        E_ABANDON => drop(s.entry(Tk::new(i))),
        E_INTOKEY => {
            let k = Tk::new(i);
            let ki = k.id();
            if let Entry::Vacant(e) = s.entry(k) {
                let k = e.into_key();
                ck(k.id() == ki, || "into_key hands back another key".into())?;
                state(s, m, (1, 0))?;
            }
        }
        E_ORINS | E_ORWITH | E_ORKEY | E_DEF | E_MODINS => {
            let k = Tk::new(i);
            let ki = k.id();
            let e = s.entry(k);
            let made = Cell::new(None);
            let mk = || {
                let v = Tv::new(n);
                made.set(Some(v.id()));
                v
            };
            let mut modified = None;
            let r = match kind {
                E_ORINS => e.or_insert(mk()),
                E_ORWITH => e.or_insert_with(mk),
                E_ORKEY => e.or_insert_with_key(|k| {
                    k.t.touch();
                    mk()
                }),
                E_DEF => e.or_default(),
                _ => e
                    .and_modify(|v| {
                        let x = Tv::new(n);
                        modified = Some(x.id());
                        *v = x
                    })
                    .or_insert(mk()),
            };
            let got = r.id();
            match &had {
                None => {
                    ck(kind == E_DEF || made.get() == Some(got), || "or_insert: another value is in the entry".into())?;
                    put(m, ki, got);
                }
                Some(h) => {
                    let want = if kind == E_MODINS { modified.unwrap_or(h.1) } else { h.1 };
                    ck(got == want, || "or_insert: another value is in the entry".into())?;
                    m.get_mut(&i).unwrap().1 = got;
                }
            }
        }
        E_MOD => {
            let mut made = None;
            drop(s.entry(Tk::new(i)).and_modify(|v| {
                let x = Tv::new(n);
                made = Some(x.id());
                *v = x;
            }));
            if let Some(x) = made {
                m.get_mut(&i).ok_or("and_modify of a missing key")?.1 = x;
            }
        }
        E_GETMUT => {
            if let Entry::Occupied(mut e) = s.entry(Tk::new(i)) {
                let (a, b) = (Tv::new(n), Tv::new(n ^ 1));
                m.get_mut(&i).ok_or("occupied entry of a missing key")?.1 = b.id();
                e.get().t.touch();
                *e.get_mut() = a;
                e.key().t.touch();
                drop(std::mem::replace(e.get_mut(), b));
                e.get().t.touch();
            }
        }
        E_INTOMUT => {
            let k = Tk::new(i);
            let ki = k.id();
            match s.entry(k) {
                Entry::Occupied(e) => {
                    let v = Tv::new(n);
                    m.get_mut(&i).ok_or("occupied entry of a missing key")?.1 = v.id();
                    *e.into_mut() = v;
                }
                Entry::Vacant(e) => {
                    let (v, w) = (Tv::new(n), Tv::new(n ^ 1));
                    m.insert(i, (vec![ki], w.id()));
                    *e.insert(v) = w;
                }
            }
        }
        E_REM => match s.entry(Tk::new(i)) {
            Entry::Occupied(e) => {
                let old = Some(e.remove());
                m.remove(&i);
                mine(&old, "entry remove")?;
                state(s, m, (0, 1))?;
            }
            Entry::Vacant(e) => e.key().t.touch(),
        },
        E_REME => {
            if let Entry::Occupied(e) = s.entry(Tk::new(i)) {
                let (k, v) = e.remove_entry();
                m.remove(&i);
                let (k, old) = (k, Some(v));
                mine(&old, "entry remove_entry")?;
                ck(k.k == i && alive(k.id()), || "entry remove_entry hands back another key".into())?;
                state(s, m, (1, 1))?;
            }
        }
        WIT => {
            let k = Tk::new(i);
            let t = s.tree();
            let w = t.witness(&k);
            let w2 = t.nested_witness(&k, |v| v.as_hash_tree());
            let g = t.get(&k).map(|v| v.id());
            ck(g == had.as_ref().map(|x| x.1), || "get finds another value".into())?;
            ck(w.reconstruct() == w2.reconstruct(), || "the witnesses differ".into())?;
            t.get_with(|x| k.cmp(x)).map(|v| v.id());
        }
        ITER => {
            // As many entries as there are keys up to this one, then the iterator is dropped.
            let c = m.range(..=i).count();
            let mut it = match s {
                Sut::M(x) => x.iter(),
                Sut::R(x) => RbTreeIterator::new(x),
            };
            for _ in 0..c {
                let (k, v) = it.next().ok_or("the iterator ended early")?;
                k.t.touch();
                v.t.touch();
            }
            let mut it2 = RbTreeIterator::new(s.tree());
            while it2.next().is_some() {}
            ck(it2.next().is_none(), || "the iterator starts again".into())?;
            s.tree().for_each(|_, v| v.t.touch());
        }
        RANGE => {
            let (a, b) = (Tk::new(i), Tk::new(i + 9));
            let t = s.tree();
            let ws = [t.key_range(&a, &b), t.value_range(&a, &b), t.keys(), t.as_hash_tree()];
            for w in ws {
                w.reconstruct();
            }
            t.root_hash();
        }
        CLEAR => {
            match s {
                Sut::M(x) => x.clear(),
                Sut::R(x) => *x = RbTree::new(),
            }
            m.clear();
        }
        REBUILD => {
            let mut list = vec![];
            m.clear();
            for (j, i) in [8, 16, 8, 24, 16, 8].iter().enumerate() {
                let (k, v) = (Tk::new(*i), Tv::new(n + j as u8));
                let e = m.entry(*i).or_insert((vec![], 0));
                e.0.push(k.id());
                e.1 = v.id();
                list.push((k, v));
            }
            match s {
                Sut::M(x) => *x = list.into_iter().collect(),
                Sut::R(x) => {
                    *x = RbTree::default();
                    for (k, v) in list {
                        x.insert(k, v);
                    }
                }
            }
        }
        FMT => match s {
            Sut::M(x) => drop(format!("{x:?} {:?}", x.as_hash_tree())),
            Sut::R(_) => (),
        },
        TAKE => {
            let t = match s {
                Sut::M(x) => Sut::M(std::mem::replace(x, Map::new())),
                Sut::R(x) => Sut::R(std::mem::take(x)),
            };
            state(&t, m, (0, 0))?;
            // Moved around as values are.
            let b = Box::new(t);
            *s = *b;
        }
        k => panic!("operation {k}"),
    }
    Ok(())
}

/// Parameters: 0 Map or 1 RbTree, operations...
pub fn own(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let mut fp = Fp::new();
    let mut n = 0;
    owned(|| {
        let mut s = Sut::new(p[0]);
        let mut m = Model::new();
        for (j, o) in p[1..].iter().enumerate() {
            apply(&mut s, &mut m, *o, j as u8)?;
            state(&s, &m, (0, 0)).map_err(|e| format!("after step {j}: {e}"))?;
        }
        for (k, v) in &m {
            fp.num(*k as u64);
            fp.num(v.1 as u64);
        }
        n = m.len();
        drop(s);
        reg_ok()
    })?;
    obs.steps = p.len() as u64 - 1;
    obs.trivial = p.len() == 1;
    obs.fp = fp.0;
    obs.text = format!("-> {n} entries when dropped");
    Ok(())
}

/// Parameters: 0 Map or 1 RbTree, insertion pattern, n, deletion pattern, number of deletions.
pub fn big(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    owned(|| {
        let mut s = Sut::new(p[0]);
        let mut m = Model::new();
        for i in hist::pattern(p[1], p[2]) {
            apply(&mut s, &mut m, op(hist::INS, i), i as u8)?;
        }
        for i in hist::pattern(p[3], p[2]).into_iter().take(p[4] as usize) {
            apply(&mut s, &mut m, op(hist::REME, i), 0)?;
        }
        state(&s, &m, (0, 0))
    })?;
    obs.steps = (p[2] + p[4]) as u64;
    let mut fp = Fp::new();
    for x in p {
        fp.num(*x as u64);
    }
    obs.fp = fp.0;
    Ok(())
}

const SEQ_OPS: i64 = 13;
/// Parameters: operations.
pub fn own_seq(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let mut last = 0;
    owned(|| {
        let mut s: Seq<Tv> = Seq::new();
        let mut m: Vec<u8> = vec![];
        for (j, o) in p.iter().enumerate() {
            let n = j as u8;
            match o {
                0 => {
                    s.append(Tv::new(n));
                    m.push(n);
                }
                1 => {
                    s.extend([Tv::new(n), Tv::new(n + 1)]);
                    m.extend([n, n + 1]);
                }
                2 => {
                    s.clear();
                    m.clear();
                }
                3 => {
                    let c = s.clone();
                    s = c;
                }
                4 => drop(s.clone()),
                5 => {
                    let mut v: Vec<Tv> = s.into();
                    v.reverse();
                    m.reverse();
                    s = v.into();
                }
                6 => s.shrink_to_fit(),
                7 => {
                    s.reserve(3);
                    s.reserve_exact(5);
                }
                8 => {
                    let c = Seq::from(&s.as_vec()[..]);
                    s = c;
                }
                9 => {
                    let v: Vec<Tv> = std::mem::take(&mut s).into();
                    s = v.into_iter().skip(1).collect();
                    if !m.is_empty() {
                        m.remove(0);
                    }
                }
                10 => {
                    let t = std::mem::replace(&mut s, Seq::with_capacity(2));
                    s.extend(Vec::from(t).into_iter().map(|x| x.clone()));
                }
                11 => {
                    let mut v: Vec<Tv> = s.into();
                    v.truncate(1);
                    m.truncate(1);
                    s = (&mut v[..]).into();
                }
                _ => {
                    for x in s.iter() {
                        x.t.touch();
                    }
                    drop(format!("{s:?}"));
                }
            }
            reg_ok()?;
            ck(s.as_vec().iter().map(|x| x.v).eq(m.iter().copied()), || format!("the items are {s:?} instead of {m:?}"))?;
            ck(counts() == (0, m.len() as i64), || {
                format!("after step {j}: {} items are alive instead of {}", counts().1, m.len())
            })?;
        }
        last = m.len();
        Ok(())
    })?;
    obs.steps = p.len() as u64;
    obs.trivial = p.is_empty();
    obs.fp = last as u64;
    Ok(())
}

fn own_paged_t<const S: usize>(p: &[i64]) -> Result<(), String> {
    let mut s: Paged<Tk, Tv, S> = Paged::new();
    let mut n = [0usize; 3];
    for (j, o) in p.iter().enumerate() {
        let i = (o % 4) as usize;
        let k = Tk::new(i as i64);
        if *o < 3 {
            s.insert(k, Tv::new(j as u8));
            n[i] += 1;
        } else {
            let last = s.get_last_page_number(&k);
            for pg in 0..4 {
                s.get(&k, pg).map(|x| x.iter().for_each(|v| v.t.touch()));
                s.witness(&k, pg).reconstruct();
            }
            s.witness_last_page_number(&k).reconstruct();
            ck(last.is_some() == n.get(i).map_or(false, |x| *x > 0), || "last page".into())?;
            s.as_hash_tree();
            s.root_hash();
            drop(k);
        }
        let pages: usize = n.iter().map(|x| x.div_ceil(S)).sum();
        let items: usize = n.iter().sum();
        reg_ok()?;
        ck(counts() == (pages as i64, items as i64), || {
            format!("after step {j}: {pages} pages of {items} items, but {} keys and {} items are alive", counts().0, counts().1)
        })?;
    }
    Ok(())
}

/// Parameters: page size, operations (key, or key + 4 to read).
pub fn own_paged(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    owned(|| match p[0] {
        1 => own_paged_t::<1>(&p[1..]),
        2 => own_paged_t::<2>(&p[1..]),
        _ => own_paged_t::<3>(&p[1..]),
    })?;
    obs.steps = p.len() as u64 - 1;
    obs.trivial = p.len() == 1;
    let mut fp = Fp::new();
    for x in p {
        fp.num(*x as u64);
    }
    obs.fp = fp.0;
    Ok(())
}

struct L<const N: usize>(Tv);
impl<const N: usize> AsHashTree for L<N> {
    fn as_hash_tree(&self) -> HashTree<'_> {
        self.0.as_hash_tree()
    }
}
struct M<const N: usize>(Map<Tk, Tv>);
impl<const N: usize> AsHashTree for M<N> {
    fn as_hash_tree(&self) -> HashTree<'_> {
        self.0.as_hash_tree()
    }
}
fn add(b: GroupBuilder, ty: i64, path: &[&str], n: u8) -> GroupBuilder {
    let mp = || [(Tk::new(n as i64), Tv::new(n)), (Tk::new(3), Tv::new(9))].into_iter().collect();
    let path = path.iter().copied();
    match ty {
        0 => b.insert(path, L::<0>(Tv::new(n))),
        1 => b.insert(path, L::<1>(Tv::new(n))),
        2 => b.insert(path, M::<0>(mp())),
        _ => b.insert(path, M::<1>(mp())),
    }
}
const GP: [&[&str]; 5] = [&["a"], &["a", "b"], &["b"], &["b", "c"], &["d"]];

/// Parameters: what happens to the group, (leaf type * 5 + path)...
pub fn own_group(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let mut fp = Fp::new();
    let mut rejected = false;
    owned(|| {
        let mut b = Some(GroupBuilder::new());
        let (mut keys, mut vals) = (0, 0);
        for (n, x) in p[1..].iter().enumerate() {
            let b0 = b.take().unwrap();
            match guarded(move || add(b0, x / 5, GP[(x % 5) as usize], 20 + n as u8)) {
                Ok(x) => b = Some(x),
                // A conflicting layout: whatever was added must be gone now.
                Err(_) => {
                    rejected = true;
                    return Ok(());
                }
            }
            if x / 5 < 2 {
                vals += 1;
            } else {
                vals += 2;
                keys += 2;
            }
        }
        let b = b.unwrap();
        if p[0] == 0 || p.len() == 1 {
            return Ok(());
        }
        let mut g: Group = b.build();
        ck(counts() == (keys, vals), || format!("{:?} keys and values are alive instead of {:?}", counts(), (keys, vals)))?;
        let has = |t: i64| p[1..].iter().any(|x| x / 5 == t);
        if p[0] == 2 {
            if has(0) {
                g.get_mut::<L<0>>().0 = Tv::new(1);
            }
            if has(1) {
                let l = g.get_mut::<L<1>>();
                drop(std::mem::replace(&mut l.0, Tv::new(2)));
            }
            if has(2) {
                let mp = &mut g.get_mut::<M<0>>().0;
                mp.insert(Tk::new(1), Tv::new(1));
                mp.remove(&Tk::new(3));
            }
            if has(3) {
                g.get_mut::<M<1>>().0.clear();
                keys -= 2;
                vals -= 2;
            }
            ck(counts() == (keys, vals), || {
                format!("after changes {:?} keys and values are alive instead of {:?}", counts(), (keys, vals))
            })?;
        }
        {
            let k = Tk::new(3);
            let mut r = g.witness();
            if has(0) {
                r = r.full::<L<0>>().full::<L<0>>();
            }
            if has(2) {
                r = r.full::<M<0>>().partial(|m: &M<0>| m.0.witness(&k));
            }
            let w = r.build();
            ck(w.reconstruct() == g.root_hash(), || "the witness does not verify".into())?;
            // A builder of a witness that is not used
            if has(1) {
                drop(g.witness().full::<L<1>>());
            }
            g.as_hash_tree();
        }
        for f in [has(0), has(1), has(2), has(3)] {
            fp.num(f as u64);
        }
        if p[0] == 3 {
            // Asking for a leaf that is not there
            struct No;
            impl AsHashTree for No {
                fn as_hash_tree(&self) -> HashTree<'_> {
                    HashTree::Empty
                }
            }
            ck(guarded(|| drop(g.get::<No>().as_hash_tree())).is_err(), || "a leaf that is not there".into())?;
            ck(guarded(|| drop(g.get_mut::<No>().as_hash_tree())).is_err(), || "a leaf that is not there".into())?;
            g.root_hash();
        }
        Ok(())
    })?;
    fp.num(rejected as u64);
    obs.fp = fp.0;
    obs.steps = p.len() as u64;
    obs.trivial = p.len() == 1;
    Ok(())
}

/// Keys whose comparisons answer anything at all. Parameters: 0 Map or 1 RbTree, operation, key, number
/// of comparisons answered, the answers (base 3), operations before...
pub fn own_liar(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let mut asked = 0;
    let mut n = 0;
    owned(|| {
        let mut s = Sut::new(p[0]);
        let mut m = Model::new();
        for (j, o) in p[5..].iter().enumerate() {
            apply(&mut s, &mut m, *o, j as u8)?;
        }
        let i = p[2];
        let probe = Tk::new(i);
        LIES.with(|l| l.set((p[4] as u64, p[3] as u32, 0)));
        // An assertion that notices the contradiction is as good as any answer.
        let _ = engine::guarded(|| {
            let set = |r: &mut Tv| *r = Tv::new(9);
            match (p[1], &mut s) {
                (0, Sut::M(x)) => drop(x.insert(Tk::new(i), Tv::new(1))),
                (0, Sut::R(x)) => *x.insert(Tk::new(i), Tv::new(1)).1 = Tv::new(2),
                (1, Sut::M(x)) => drop(x.remove_entry(&probe)),
                (1, Sut::R(x)) => drop(x.delete(&probe)),
                // A change, then everything that has to find its way to it
                (2, Sut::M(x)) => {
                    x.get_mut(&probe).map(set);
                    x.root_hash();
                }
                (2, Sut::R(x)) => {
                    x.modify(&probe, set);
                    x.root_hash();
                }
                (3, Sut::M(x)) => {
                    x.get_mut(&probe).map(set);
                    x.insert(Tk::new(i + 1), Tv::new(1));
                }
                (3, Sut::R(x)) => {
                    x.modify(&probe, set);
                    x.delete(&probe);
                }
                (4, x) => {
                    if let Entry::Occupied(e) = x.entry(Tk::new(i)) {
                        e.remove();
                    }
                }
                (5, x) => *x.entry(Tk::new(i)).or_default() = Tv::new(4),
                (6, x) => drop(x.tree().witness(&probe).reconstruct()),
                (7, x) => drop(x.tree().key_range(&probe, &Tk::new(i + 9)).reconstruct()),
                (8, x) => drop(x.tree().value_range(&probe, &Tk::new(i + 9)).reconstruct()),
                (9, x) => drop(x.tree().get(&probe).map(|v| v.id())),
                _ => {}
            }
        });
        asked = LIES.with(|l| l.replace((0, 0, 0)).2);
        drop(probe);
        reg_ok()?;
        let mut seen = std::collections::BTreeSet::new();
        s.tree().for_each(|k, v| {
            seen.insert((k.id(), v.id()));
        });
        n = seen.len();
        ck(n == s.tree().len(), || format!("{n} entries, but len is {}", s.tree().len()))?;
        ck(counts() == (n as i64, n as i64), || format!("{n} entries, but {} keys and {} values are alive", counts().0, counts().1))?;
        // Everything in turn, in an order that may be none
        let keys: Vec<i64> = m.keys().copied().chain([i]).collect();
        for k in &keys {
            let _ = engine::guarded(|| match &mut s {
                Sut::M(x) => drop(x.remove(&Tk::new(*k))),
                Sut::R(x) => drop(x.delete(&Tk::new(*k))),
            });
            let _ = engine::guarded(|| s.tree().as_hash_tree().reconstruct());
            reg_ok()?;
        }
        Ok(())
    })?;
    obs.trivial = asked < p[3] as u32;
    obs.extra = vec![asked as i64];
    obs.steps = p.len() as u64 - 4;
    let mut fp = Fp::new();
    for x in p {
        fp.num(*x as u64);
    }
    fp.num(n as u64);
    obs.fp = fp.0;
    Ok(())
}

fn perms(v: &mut Vec<i64>, k: usize, f: &mut impl FnMut(&[i64])) {
    if k == v.len() {
        return f(v);
    }
    for i in k..v.len() {
        v.swap(k, i);
        perms(v, k + 1, f);
        v.swap(k, i);
    }
}

/// Pointers that point to nothing, made by safe code. Parameters: what reads through them.
pub fn dangling(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    obs.fp = p[0] as u64;
    obs.steps = 1;
    // In a process of its own: a stray access may do anything.
    let out = std::process::Command::new(std::env::current_exe().map_err(|e| e.to_string())?)
        .args(["dangling", &p[0].to_string()])
        .output()
        .map_err(|e| e.to_string())?;
    match std::os::unix::process::ExitStatusExt::signal(&out.status) {
        None => Ok(()),
        Some(s) => Err(format!("KF[nonnull-deref] {} of a NonNull that points to nothing, made without unsafe code, ends the process with signal {s}", DANGLING[p[0] as usize])),
    }
}
const DANGLING: [&str; 3] = ["as_label()", "root_hash()", "as_hash_tree()"];

/// The other process.
pub fn dangle(what: i64) {
    use std::ptr::NonNull;
    let p: NonNull<String> = std::hint::black_box(NonNull::dangling());
    match what {
        0 => println!("{:?}", certified_vars::label::Label::as_label(&p)),
        1 => println!("{:?}", p.root_hash()),
        _ => println!("{:?}", crate::spec::of(&p.as_hash_tree())),
    }
}

pub fn c17(ctx: &Ctx) {
    let si = ctx.scen("own");
    let full: Vec<i64> = (0..KINDS)
        .flat_map(|k| (if k < KEYED { vec![16, 8, 24] } else { vec![0] }).into_iter().map(move |i| op(k, i)))
        .collect();
    let core: Vec<i64> = [16, 8, 24].iter().flat_map(|i| [hist::INS, hist::REM, E_REME, hist::GETMUT].map(|k| op(k, *i))).collect();
    for which in [0, 1] {
        let d = ctx.pick(3, 4);
        ctx.sequences(si, &[which], &full, d);
        let c = ctx.pick(5, 7);
        ctx.sequences(si, &[which], &core, c);
        ctx.note(format!(
            "sequences ({}): all of length <= {d} over {} operations and of length <= {c} over {} on 3 keys, every key and value tracked",
            ["Map", "RbTree"][which as usize],
            full.len(),
            core.len()
        ));
    }
    let n = ctx.pick(6, 7);
    let mut ps: Vec<Vec<i64>> = vec![];
    perms(&mut (1..=n).collect(), 0, &mut |v| ps.push(v.to_vec()));
    let m = ps.len() as u64;
    ctx.par(m * m, |x| {
        let mut p = vec![(x % 2) as i64];
        p.extend(ps[(x / m) as usize].iter().map(|k| op(hist::INS, *k)));
        p.extend(ps[(x % m) as usize].iter().map(|k| op(hist::REM, *k)));
        ctx.run(si, &p);
    });
    ctx.note(format!("permutations: every insertion order of {n} keys followed by every order of removing them"));
    let sh = hist::shapes(ctx, 1, 0, ctx.pick(11, 16), false);
    ctx.par_items(&sh, |st| {
        let mut base = vec![st.shape as i64 & 1];
        base.extend(&st.hist);
        let mut places = st.keys.clone();
        places.extend(hist::gaps(&st.keys));
        for k in 0..KINDS {
            let at: &[i64] = if k < KEYED { &places } else { &[0] };
            for i in at {
                let mut p = base.clone();
                p.push(op(k, *i));
                ctx.run(si, &p);
            }
        }
    });
    ctx.note(format!("shapes: every operation at every key and gap of {} tree shapes", sh.len()));
    let li = ctx.scen("own-liar");
    let most = ctx.pick(6, 9);
    let sh = hist::shapes(ctx, 1, 0, ctx.pick(6, 10), false);
    ctx.par_items(&sh, |st| {
        let mut places = st.keys.clone();
        places.extend(hist::gaps(&st.keys));
        for which in [0, 1] {
            for kind in 0..10 {
                for i in &places {
                    // Every sequence of answers, as far as they are asked for
                    let mut level = vec![0i64];
                    for n in 0..=most {
                        let mut next = vec![];
                        for x in level {
                            let mut p = vec![which, kind, *i, n, x];
                            p.extend(&st.hist);
                            let Some(o) = ctx.run(li, &p) else { return };
                            if o.extra[0] > n {
                                next.extend((0..3).map(|d| x + d * 3i64.pow(n as u32)));
                            }
                        }
                        level = next;
                    }
                }
            }
        }
    });
    ctx.note(format!("comparisons that lie: every sequence of up to {most} answers, whatever the keys, in 10 operations at every key and gap of {} tree shapes", sh.len()));
    let bi = ctx.scen("own-big");
    let mut v = vec![];
    for n in (1..ctx.pick(40, 100)).chain([200, 1000]) {
        for a in 0..hist::PATTERNS {
            for d in 0..if n < 40 { hist::PATTERNS } else { 2 } {
                for c in [0, n / 2, n] {
                    v.push(vec![a % 2, a, n, d, c]);
                }
            }
        }
    }
    ctx.par_items(&v, |p| {
        ctx.run(bi, p);
    });
    ctx.note(format!("sizes: {} histories of up to 1000 entries", v.len()));
    let qi = ctx.scen("own-seq");
    let d = ctx.pick(5, 7);
    ctx.sequences(qi, &[], &(0..SEQ_OPS).collect::<Vec<_>>(), d);
    ctx.note(format!("sequences of a Seq: all of length <= {d} over {SEQ_OPS} operations"));
    let pi = ctx.scen("own-paged");
    let d = ctx.pick(7, 9);
    for s in [1, 2, 3] {
        ctx.sequences(pi, &[s], &[0, 1, 2, 5, 7], d);
    }
    ctx.note(format!("sequences of a Paged: all of length <= {d} over 5 operations, page sizes 1 to 3"));
    let gi = ctx.scen("own-group");
    for how in 0..4 {
        ctx.sequences(gi, &[how], &(0..20).collect::<Vec<_>>(), ctx.pick(4, 5));
    }
    ctx.note("groups: every list of leaves over 4 types and 5 paths (including conflicting ones), dropped unbuilt, built, changed, and asked for a missing leaf");
    let fi = ctx.scen("own-fault");
    let mut pre: Vec<Vec<i64>> = hist::shapes(ctx, 1, 0, ctx.pick(4, 6), false).into_iter().map(|s| s.hist).collect();
    pre.push([16, 8, 24].map(|k| op(hist::INS, k)).into_iter().chain([op(hist::GETMUT, 8)]).collect());
    for n in [9, 20] {
        pre.push(hist::pattern(3, n).into_iter().map(|k| op(hist::INS, 8 + 8 * k)).collect());
    }
    let count = std::sync::atomic::AtomicU64::new(0);
    let points = |p: &dyn Fn(i64) -> Vec<i64>| {
        for nth in 0.. {
            match ctx.run(fi, &p(nth)) {
                Some(o) if !o.trivial => count.fetch_add(1, std::sync::atomic::Ordering::Relaxed),
                _ => break,
            };
        }
    };
    ctx.par_items(&pre, |h| {
        let mut keys: Vec<i64> = h.iter().map(|o| hist::op_key(*o)).chain([4]).collect();
        keys.sort();
        keys.dedup();
        for which in [0, 1] {
            for i in &keys {
                for post in [-1, op(hist::REM, 8)] {
                    for kind in 0..crate::faults::FAULTS {
                        points(&|nth| [&[0, which, kind, *i, nth, post], &h[..]].concat());
                    }
                    for kind in 0..crate::faults::TRAITS {
                        for mask in 0..3 {
                            points(&|nth| [&[1, which, kind, *i, mask, nth, post], &h[..]].concat());
                        }
                    }
                }
            }
        }
    });
    let mut v: Vec<Vec<i64>> = vec![];
    for kind in 0..crate::faults::SEQ_FAULTS {
        for len in 0..4 {
            for nth in 0..10 {
                v.push(vec![2, kind, nth, len, 3]);
            }
        }
    }
    for kind in 0..6 {
        for nth in 0..6 {
            v.extend((1..=3).map(|n| vec![4, kind, nth, n]));
        }
    }
    ctx.par_items(&v, |p| {
        ctx.run(fi, p);
    });
    let mut v: Vec<Vec<i64>> = vec![vec![]];
    for _ in 0..ctx.pick(3, 5) {
        v = v.iter().cloned().chain(v.iter().flat_map(|h| (1..=3).map(|k| [&h[..], &[k]].concat()))).collect();
        v.sort();
        v.dedup();
    }
    ctx.par_items(&v, |h| {
        for coll in 0..4 {
            for kind in 0..crate::faults::DEEP {
                for i in 0..=3 {
                    for mask in 0..4 {
                        points(&|nth| [&[3, coll, kind, i, mask, nth], &h[..]].concat());
                    }
                }
            }
        }
    });
    ctx.note(format!("failures of caller-supplied code: {} points at which a function, iterator, comparison, label, hash, clone or serializer panics or fails", count.into_inner()));
    let ni = ctx.scen("own-dangling");
    ctx.par(DANGLING.len() as u64, |i| {
        ctx.run(ni, &[i as i64]);
    });
    ctx.note("pointers that point to nothing");
}
