//! Hash trees as data (digest, CBOR), values as leaves, keys as labels.
use crate::engine::{Ctx, Fp, Obs};
use crate::hist::ck;
use crate::spec::{self, Look, T};
use candid::{Nat, Principal};
use certified_vars::hashtree::{fork, fork_hash, labeled, labeled_hash, leaf_hash, ForkInner};
use certified_vars::label::{Label, Prefix};
use certified_vars::{AsHashTree, HashTree, Map, Paged, Seq};
use std::borrow::Cow;
use std::cmp::Ordering;
use std::ptr::NonNull;
use std::rc::Rc;
use std::sync::{Arc, OnceLock};

// ---------------------------------------------------------------- hash trees

const LABELS: [&[u8]; 3] = [b"", b"a", b"\x00\xff"];

/// Postfix programs: 0..=5 leaves, 10..=12 labels, 20 fork.
fn leaf_node(c: i64) -> Option<T> {
    Some(match c {
        0 => T::E,
        1 => T::V(vec![]),
        2 => T::V(b"a".to_vec()),
        3 => T::P([0; 32]),
        4 => T::P(std::array::from_fn(|i| 255 - i as u8)),
        5 => T::V(vec![0x83, 0x01, 0xff]),
        _ => return None,
    })
}

fn run_postfix(p: &[i64]) -> Option<T> {
    let mut st: Vec<T> = vec![];
    for c in p {
        match c {
            20 => {
                let b = st.pop()?;
                let a = st.pop()?;
                st.push(spec::f(a, b));
            }
            10..=12 => {
                let t = st.pop()?;
                st.push(spec::l(LABELS[*c as usize - 10], t));
            }
            c => st.push(leaf_node(*c)?),
        }
    }
    (st.len() == 1).then(|| st.pop().unwrap())
}

/// The tree as a value of the crate. `how`: 0 borrowed, by the library's functions; 1 owned, by
/// its constructors.
fn to_ht(t: &T, how: i64) -> HashTree<'_> {
    match (t, how) {
        (T::E, _) => HashTree::Empty,
        (T::F(a, b), 0) => fork(to_ht(a, how), to_ht(b, how)),
        (T::F(a, b), _) => HashTree::Fork(Box::new(ForkInner(to_ht(a, how), to_ht(b, how)))),
        (T::L(l, t), 0) => labeled(l, to_ht(t, how)),
        (T::L(l, t), _) => HashTree::Labeled(Cow::Owned(l.clone()), Box::new(to_ht(t, how))),
        (T::V(v), 0) => HashTree::Leaf(Cow::Borrowed(v)),
        (T::V(v), _) => HashTree::Leaf(Cow::Owned(v.clone())),
        (T::P(h), _) => HashTree::Pruned(*h),
    }
}

fn check_tree(t: &T, obs: &mut Obs) -> Result<(), String> {
    let d = spec::digest(t);
    let mut enc = vec![];
    spec::cbor(t, &mut enc);
    for how in 0..2 {
        let h = to_ht(t, how);
        let r = h.reconstruct();
        ck(r == d, || format!("reconstruct() gives {}, the specification {}", spec::hex(&r), spec::hex(&d)))?;
        let b = serde_cbor::to_vec(&h).map_err(|e| format!("serialization: {e}"))?;
        if b != enc {
            let n = b.iter().zip(&enc).take_while(|x| x.0 == x.1).count();
            return Err(format!("CBOR differs from the specification's at byte {n} of {}", enc.len()));
        }
        let mut w: Vec<u8> = vec![];
        serde_cbor::to_writer(&mut w, &h).map_err(|e| format!("serialization: {e}"))?;
        ck(w == enc, || "CBOR through a writer differs".into())?;
        ck(spec::uncbor(&b).as_ref() == Ok(t), || "an independent decoder does not recover the tree".into())?;
        let ls = h.get_labels();
        ck(ls == spec::all_labels(t), || format!("get_labels() gives {ls:?}, expected {:?}", spec::all_labels(t)))?;
        let vs = h.get_leaf_values();
        ck(vs == spec::leaves(t), || format!("get_leaf_values() gives {vs:?}, expected {:?}", spec::leaves(t)))?;
        ck(spec::of(&h) == *t, || "the tree changed".into())?;
        ck(h == to_ht(t, 1 - how), || "a borrowed and an owned tree differ".into())?;
        if let HashTree::Fork(x) = &h {
            let (T::F(a, b), l, r) = (t, x.left(), x.right()) else { return Err("fork".into()) };
            ck(spec::of(l) == **a && spec::of(r) == **b, || "left() or right()".into())?;
            ck(fork_hash(&spec::digest(a), &spec::digest(b)) == d, || "fork_hash".into())?;
        }
        if let T::L(l, s) = t {
            ck(labeled_hash(l, &spec::digest(s)) == d, || "labeled_hash".into())?;
        }
        if let T::V(v) = t {
            ck(leaf_hash(v) == d, || "leaf_hash".into())?;
        }
    }
    let mut f = Fp::new();
    f.add(&d);
    obs.fp = f.0;
    obs.steps = enc.len() as u64;
    Ok(())
}

/// Parameters: a postfix program.
pub fn htree(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    match run_postfix(p) {
        None => {
            obs.trivial = true;
            Ok(())
        }
        Some(t) => {
            obs.text = format!("{t:?}");
            check_tree(&t, obs)
        }
    }
}

/// Parameters: kind, length of the byte string.
pub fn hlen(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let b: Vec<u8> = (0..p[1]).map(|i| (i * 7 + i / 256) as u8).collect();
    let leaf = T::V(vec![1]);
    let t = match p[0] {
        0 => T::V(b),
        1 => spec::l(&b, leaf),
        2 => spec::f(spec::l(&b, T::V(b.clone())), spec::l(b"x", T::P([1; 32]))),
        3 => spec::f(T::V(b), T::E),
        _ => spec::l(b"q", spec::l(&b, T::P([2; 32]))),
    };
    check_tree(&t, obs)?;
    obs.text = format!("byte string of {} bytes", p[1]);
    Ok(())
}

/// Parameters: kind, depth.
pub fn hdeep(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let mut t = T::V(b"deep".to_vec());
    for i in 0..p[1] {
        t = match p[0] {
            0 => spec::l(&i.to_be_bytes()[6..], t),
            1 => spec::f(t, spec::l(&i.to_be_bytes()[6..], T::P([i as u8; 32]))),
            2 => spec::f(T::V(vec![i as u8]), t),
            3 => spec::f(spec::l(b"p", t), T::E),
            _ => {
                if i % 2 == 0 {
                    spec::f(T::E, t)
                } else {
                    spec::l(b"l", t)
                }
            }
        };
    }
    let r = check_tree(&t, obs);
    obs.text = format!("chain of {}", p[1]);
    r
}

/// Trees the collections hand out, through every encoding. Parameters: kind, entries.
pub fn hreal(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let n = p[1];
    let m: Map<String, Vec<u8>> = (0..n).map(|i| (format!("{:03}", i * 2), vec![i as u8; i as usize])).collect();
    let mut trees = vec![spec::of(&m.as_hash_tree()), spec::of(&m.witness_keys())];
    for i in 0..2 * n + 1 {
        trees.push(spec::of(&m.witness(&format!("{i:03}")[..])));
        trees.push(spec::of(&m.witness_value_range::<String, String>(&format!("{:03}", i / 2), &format!("{i:03}"))));
    }
    for t in &trees {
        check_tree(t, obs)?;
    }
    obs.fp = n as u64;
    Ok(())
}

fn postfixes(max: usize) -> Vec<Vec<i64>> {
    // Trees by number of nodes.
    let mut by: Vec<Vec<Vec<i64>>> = vec![vec![], (0..6).map(|c| vec![c]).collect()];
    for n in 2..=max {
        let mut v = vec![];
        for t in &by[n - 1] {
            for l in 10..=12 {
                let mut x = t.clone();
                x.push(l);
                v.push(x);
            }
        }
        for a in 1..n - 1 {
            for x in &by[a] {
                for y in &by[n - 1 - a] {
                    let mut z = x.clone();
                    z.extend(y);
                    z.push(20);
                    v.push(z);
                }
            }
        }
        by.push(v);
    }
    by.into_iter().flatten().collect()
}

pub fn c13(ctx: &Ctx) {
    let max = ctx.pick(7, 8);
    let v = postfixes(max);
    let si = ctx.scen("htree");
    ctx.par_items(&v, |p| {
        ctx.run(si, p);
    });
    ctx.note(format!("all {} trees of up to {max} nodes over 6 leaves and 3 labels, borrowed and owned", v.len()));
    let sl = ctx.scen("hlen");
    let mut lens: Vec<i64> = (0..=ctx.pick(1100, 5000)).collect();
    lens.extend([65534, 65535, 65536, 65537, 70000, 1 << 17, (1 << 20) + 1]);
    ctx.par(lens.len() as u64 * 5, |i| {
        ctx.run(sl, &[i as i64 % 5, lens[(i / 5) as usize]]);
    });
    ctx.note(format!("every length of labels and leaves up to {}, and around 64 KiB and 1 MiB", ctx.pick(1100, 5000)));
    let sd = ctx.scen("hdeep");
    let mut ds: Vec<i64> = (0..=ctx.pick(200, 400)).collect();
    ds.extend([500, 1000, 2000]);
    ctx.par(ds.len() as u64 * 5, |i| {
        ctx.run(sd, &[i as i64 % 5, ds[(i / 5) as usize]]);
    });
    ctx.note("chains of labels and forks of every depth up to 200 and some up to 2000");
    let sr = ctx.scen("hreal");
    ctx.par(ctx.pick(40, 100), |n| {
        ctx.run(sr, &[0, n as i64]);
    });
    ctx.note("every witness of maps of up to 40 entries through the encodings");
}

// ---------------------------------------------------------------- values

/// Interesting numbers of `bits` bits (all of them when that is feasible).
pub fn nums(bits: u32) -> &'static [u128] {
    static C: OnceLock<Vec<Vec<u128>>> = OnceLock::new();
    let c = C.get_or_init(|| {
        [8u32, 16, 32, 64, 128]
            .iter()
            .map(|bits| {
                if *bits <= 16 {
                    return (0..1u128 << bits).collect();
                }
                structured(*bits)
            })
            .collect()
    });
    &c[bits.trailing_zeros() as usize - 3]
}

fn mask(bits: u32) -> u128 {
    if bits == 128 {
        u128::MAX
    } else {
        (1 << bits) - 1
    }
}

/// Zero, all ones, every single bit, every run of bits from either end, every byte at every
/// position in a background of zeros or ones, neighbours of all these powers.
pub fn structured(bits: u32) -> Vec<u128> {
    let m = mask(bits);
    let mut v = vec![0, m, 1, m - 1, 0x0123456789abcdeffedcba9876543210 & m];
    for i in 0..bits {
        let b = 1u128 << i;
        v.extend([b, b - 1, b.wrapping_add(1) & m, m ^ b, m ^ (b - 1), (m ^ b).wrapping_sub(1) & m]);
    }
    for pos in 0..bits / 8 {
        for x in 0..256u128 {
            if bits <= 32 || [1, 2, 127, 128, 129, 254, 255].contains(&x) {
                v.push(x << (8 * pos));
                v.push(m ^ (0xff << (8 * pos)) | x << (8 * pos));
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

fn be(x: u128, bits: u32) -> Vec<u8> {
    (0..bits / 8).rev().map(|i| (x >> (8 * i) & 255) as u8).collect()
}

fn one_val<V: AsHashTree>(v: &V, bytes: &[u8]) -> Result<(), String> {
    let want = T::V(bytes.to_vec());
    let got = spec::of(&v.as_hash_tree());
    ck(got == want, || format!("the hash tree is {got:?}, expected {want:?}"))?;
    let h = spec::leaf_digest(bytes);
    ck(v.root_hash() == h, || format!("the root hash is {}, expected {}", spec::hex(&v.root_hash()), spec::hex(&h)))?;
    ck(v.as_hash_tree().reconstruct() == h, || "reconstruct()".into())
}

/// The value itself, behind every pointer, and in a map.
fn val<V: AsHashTree + 'static>(v: V, bytes: &[u8], deep: bool) -> Result<(), String> {
    one_val(&v, bytes)?;
    if !deep {
        return Ok(());
    }
    let mut v = Box::new(v);
    one_val(&v, bytes).map_err(|e| format!("Box: {e}"))?;
    one_val(&NonNull::from(&mut *v), bytes).map_err(|e| format!("NonNull: {e}"))?;
    let v = Rc::new(*v);
    one_val(&v, bytes).map_err(|e| format!("Rc: {e}"))?;
    one_val(&Rc::clone(&v), bytes).map_err(|e| format!("Rc clone: {e}"))?;
    let Ok(v) = Rc::try_unwrap(v) else { return Err("shared".into()) };
    let v = Arc::new(v);
    one_val(&v, bytes).map_err(|e| format!("Arc: {e}"))?;
    let v = Box::new(v);
    one_val(&v, bytes).map_err(|e| format!("Box<Arc>: {e}"))?;
    let Ok(v) = Arc::try_unwrap(*v) else { return Err("shared".into()) };
    let mut m: Map<u8, V> = Map::new();
    m.insert(5, v);
    let t = spec::of(&m.witness(&5));
    let want = spec::l(&[5], T::V(bytes.to_vec()));
    ck(t == want, || format!("in a map: {t:?}, expected {want:?}"))?;
    ck(m.root_hash() == spec::digest(&want), || "in a map: root hash".into())?;
    let (_, v) = m.remove_entry(&5).ok_or("value lost")?;
    let mut s: Seq<V> = Seq::new();
    s.append(v);
    ck(s.root_hash() == spec::sha(&[&[0; 32], &spec::leaf_digest(bytes)]), || "in a sequence".into())
}

pub const INTS: [&str; 14] = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "usize", "isize", "f32", "f64"];
pub fn bits_of(t: i64) -> u32 {
    match t {
        0 | 1 => 8,
        2 | 3 => 16,
        4 | 5 | 12 => 32,
        8 | 9 => 128,
        _ => 64,
    }
}

fn num_val(t: i64, x: u128, deep: bool) -> Result<(), String> {
    let b = be(x, bits_of(t));
    match t {
        0 => val(x as u8, &b, deep),
        1 => val(x as u8 as i8, &b, deep),
        2 => val(x as u16, &b, deep),
        3 => val(x as u16 as i16, &b, deep),
        4 => val(x as u32, &b, deep),
        5 => val(x as u32 as i32, &b, deep),
        6 => val(x as u64, &b, deep),
        7 => val(x as u64 as i64, &b, deep),
        8 => val(x, &b, deep),
        9 => val(x as i128, &b, deep),
        10 => val(x as u64 as usize, &b, deep),
        11 => val(x as u64 as isize, &b, deep),
        12 => val(f32::from_bits(x as u32), &b, deep),
        _ => val(f64::from_bits(x as u64), &b, deep),
    }
}

/// Parameters: type, number (low and high 64 bits), deep.
pub fn vnum(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let x = p[1] as u64 as u128 | (p[2] as u64 as u128) << 64;
    obs.fp = (p[0] as u64) << 56 ^ (p[1] as u64).wrapping_mul(3) ^ (p[2] as u64).wrapping_mul(5);
    obs.steps = 1;
    obs.text = format!("{} {x:#x}", INTS[p[0] as usize]);
    num_val(p[0], x, p[3] != 0).map_err(|e| format!("{} {x:#x}: {e}", INTS[p[0] as usize]))
}

fn arr_val<const N: usize>(b: &[u8]) -> Result<(), String>
where
    [u8; N]: AsHashTree,
{
    let a: [u8; N] = b.try_into().unwrap();
    val(a, b, true)
}

macro_rules! by_len {
    ($n:expr, $N:ident => $e:expr) => {
        by_len!(@ $n, $N, $e, 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32)
    };
    (@ $n:expr, $N:ident, $e:expr, $($k:literal)*) => {
        match $n {
            $($k => { const $N: usize = $k; $e })*
            n => panic!("length {n}"),
        }
    };
}

/// Parameters: kind, bytes. 0 arrays, 1 byte strings, 2 text, 3 principals, 4 naturals, 5 bool.
pub fn vbytes(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let b: Vec<u8> = p[1..].iter().map(|x| *x as u8).collect();
    let mut f = Fp::new();
    f.num(p[0] as u64);
    f.add(&b);
    obs.fp = f.0;
    obs.steps = 1;
    obs.text = format!("kind {} {b:?}", p[0]);
    match p[0] {
        0 => by_len!(b.len(), N => arr_val::<N>(&b)),
        1 => {
            val(b.clone(), &b, true)?;
            one_val(&&b[..], &b).map_err(|e| format!("&[u8]: {e}"))?;
            let s: &'static [u8] = Box::leak(b.clone().into_boxed_slice());
            let r = val(s, &b, true).map_err(|e| format!("&[u8]: {e}"));
            // SAFETY: nothing refers to it any more.
            drop(unsafe { Box::from_raw(s as *const [u8] as *mut [u8]) });
            r
        }
        2 => {
            let s = String::from_utf8(b.clone()).map_err(|e| e.to_string())?;
            one_val(&&s[..], &b).map_err(|e| format!("&str: {e}"))?;
            val(s, &b, true)
        }
        3 => val(Principal::from_slice(&b), &b, true),
        4 => {
            let mut n = Nat::from(0u8);
            for x in &b {
                n = n * 256u32 + Nat::from(*x);
            }
            let z = b.iter().take_while(|x| **x == 0).count();
            let want = if z == b.len() { vec![0] } else { b[z..].to_vec() };
            val(n, &want, true)
        }
        _ => {
            val(b[0] != 0, &[(b[0] != 0) as u8], true)
        }
    }
}

/// Pointers to collections. Parameters: entries.
pub fn vptr(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    fn same<A: AsHashTree>(a: &A, t: &T) -> Result<(), String> {
        ck(spec::of(&a.as_hash_tree()) == *t, || "as_hash_tree() through a pointer".into())?;
        ck(a.root_hash() == spec::digest(t), || "root_hash() through a pointer".into())
    }
    fn all<A: AsHashTree + 'static>(a: A) -> Result<(), String> {
        let t = spec::of(&a.as_hash_tree());
        same(&a, &t)?;
        let mut a = Box::new(a);
        same(&a, &t)?;
        same(&NonNull::from(&mut *a), &t)?;
        let a = Rc::new(a);
        same(&a, &t)?;
        let Ok(a) = Rc::try_unwrap(a) else { return Err("shared".into()) };
        let a = Arc::new(a);
        same(&a, &t)?;
        same(&Box::new(Rc::new(a)), &t)
    }
    let n = p[0];
    obs.fp = n as u64;
    obs.steps = 4;
    all((0..n).map(|i| (i as u8, format!("{i}"))).collect::<Map<u8, String>>())?;
    all((0..n).map(|i| i as u16).collect::<Seq<u16>>())?;
    let mut pg: Paged<u8, u8, 2> = Paged::new();
    (0..n).for_each(|i| pg.insert((i % 3) as u8, i as u8));
    all(pg)?;
    all((0..n).map(|i| (i as u8, Box::new((0..i).map(|j| (j as u8, Rc::new(j as u32))).collect::<Map<u8, Rc<u32>>>()))).collect::<Map<u8, Box<Map<u8, Rc<u32>>>>>())
}

/// Byte strings with every byte value at every position in two backgrounds.
fn patterns(n: usize, vals: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![vec![0; n], vec![255; n], (0..n).map(|i| i as u8).collect(), (0..n).rev().map(|i| (i as u8).wrapping_mul(7)).collect()];
    for i in 0..n {
        for x in vals {
            for bg in [0, 255] {
                let mut b = vec![bg; n];
                b[i] = *x;
                v.push(b);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

/// All strings over an alphabet up to a length.
pub fn words<X: Clone>(alpha: &[X], max: usize) -> Vec<Vec<X>> {
    let mut v = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for w in &last {
            for a in alpha {
                let mut x: Vec<X> = w.clone();
                x.push(a.clone());
                next.push(x);
            }
        }
        v.extend(next.clone());
        last = next;
    }
    v
}

const CHARS: [char; 8] = ['\0', 'a', 'b', '\u{7f}', '\u{80}', '\u{7ff}', '\u{ffff}', '\u{10ffff}'];

/// Characters at every place of a text. Parameters: first, number of characters.
pub fn vchars(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    for c in (p[0]..p[0] + p[1]).filter_map(|c| char::from_u32(c as u32)) {
        for s in [format!("{c}"), format!("{c}a"), format!("a{c}"), format!("a{c}a"), format!("{c}{c}")] {
            let e = |m: String| format!("{s:?}: {m}");
            one_val(&&s[..], s.as_bytes()).map_err(|m| e(format!("&str: {m}")))?;
            one_val(&s, s.as_bytes()).map_err(e)?;
            obs.steps += 1;
        }
    }
    obs.trivial = obs.steps == 0;
    obs.fp = p[0] as u64;
    Ok(())
}

/// The labels of texts with every character, and their prefixes. Parameters: first, number of characters.
pub fn lchars(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    for c in (p[0]..p[0] + p[1]).filter_map(|c| char::from_u32(c as u32)) {
        for s in [format!("{c}"), format!("{c}a"), format!("a{c}"), format!("a{c}a"), format!("{c}{c}")] {
            let l = s.as_label();
            ck(*l == *s.as_bytes(), || format!("label of {s:?}: {l:?}"))?;
            let other = char::from_u32(c as u32 ^ 1).unwrap_or('b');
            for q in ["".to_string(), "a".into(), format!("{c}"), format!("a{c}"), format!("{c}{c}"), format!("{other}"), format!("a{other}")] {
                let (got, want) = (Prefix::<str>::is_prefix(&s, &q), s.as_bytes().len() >= q.len() && &s.as_bytes()[..q.len()] == q.as_bytes());
                ck(got == want, || format!("is {q:?} a prefix of {s:?}: {got}"))?;
            }
            let t = s.replace(c, &other.to_string());
            ck(s.cmp(&t) == s.as_label().cmp(&t.as_label()), || format!("order of {s:?} and {t:?}"))?;
            obs.steps += 1;
        }
    }
    obs.trivial = obs.steps == 0;
    obs.fp = p[0] as u64;
    Ok(())
}

fn each_char(ctx: &Ctx, name: &str) {
    let si = ctx.scen(name);
    ctx.par(0x110000 / 64, |i| {
        ctx.run(si, &[i as i64 * 64, 64]);
    });
    ctx.note("texts with every Unicode character alone, at the beginning, in the middle, at the end and twice");
}

/// Long values. Parameters: kind as in `vbytes`, length, filling.
pub fn vlong(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let mut q = vec![p[0]];
    q.extend((0..p[1]).map(|i| match p[2] {
        0 => 0x61,
        1 => (i * 7 + i / 256) % 128,
        2 if p[0] == 2 => (i + 1 == p[1]) as i64,
        2 => (i + 1 == p[1]) as i64 * 255,
        _ => (i == 0) as i64,
    }));
    let r = vbytes(&q, obs);
    obs.text = format!("kind {} of {} bytes, filling {}", p[0], p[1], p[2]);
    r
}

fn ints(b: &[u8]) -> Vec<i64> {
    b.iter().map(|x| *x as i64).collect()
}

pub fn c14(ctx: &Ctx) {
    let si = ctx.scen("vnum");
    for t in 0..14i64 {
        let v = nums(bits_of(t));
        ctx.par(v.len() as u64, |i| {
            let x = v[i as usize];
            ctx.run(si, &[t, x as u64 as i64, (x >> 64) as u64 as i64, (bits_of(t) != 16 || i % 16 == 0) as i64]);
        });
        ctx.note(format!("{}: {} values", INTS[t as usize], v.len()));
    }
    if !ctx.quick() {
        // Every float and number of 32 bits of the form a << s with a below 2^16.
        for t in [4, 5, 12] {
            ctx.par(1 << 16, |a| {
                for s in 1..=16 {
                    ctx.run(si, &[t, (a << s) as u32 as i64, 0, 0]);
                    ctx.run(si, &[t, !(a << s) as u32 as i64, 0, 0]);
                }
            });
        }
    }
    let sb = ctx.scen("vbytes");
    let mut v: Vec<Vec<i64>> = vec![];
    let mut push = |k: i64, b: &[u8]| {
        let mut p = vec![k];
        p.extend(ints(b));
        v.push(p);
    };
    let all: Vec<u8> = (0..=255).collect();
    let some = [0, 1, 2, 3, 4, 127, 128, 200, 254, 255];
    for n in 1..=32 {
        for b in patterns(n, if n <= 8 { &all } else { &some }) {
            push(0, &b);
        }
    }
    for a in 0..=255u8 {
        push(1, &[a]);
        for b in 0..=255u8 {
            push(1, &[a, b]);
            push(4, &[a, b]);
            if b % 8 == 0 {
                push(0, &[a, b]);
                push(3, &[a, b]);
            }
        }
    }
    for n in 0..=200 {
        push(1, &vec![n as u8; n]);
        push(2, "x".repeat(n).as_bytes());
        push(2, "\u{e9}".repeat(n).as_bytes());
    }
    for w in words(&CHARS, 4) {
        push(2, w.iter().collect::<String>().as_bytes());
    }
    for n in 0..=29 {
        for b in patterns(n, &some) {
            push(3, &b);
        }
    }
    for n in 0..=ctx.pick(40, 80) {
        for b in patterns(n, &some) {
            push(4, &b);
        }
    }
    push(5, &[0]);
    push(5, &[1]);
    let n = v.len();
    ctx.par_items(&v, |p| {
        ctx.run(sb, p);
    });
    ctx.note(format!("{n} arrays (1..=32 bytes), byte strings, texts, principals (0..=29 bytes), naturals (up to 320 bits), booleans; by themselves, behind every pointer, in a map and in a sequence"));
    each_char(ctx, "vchars");
    let sl = ctx.scen("vlong");
    let mut lens: Vec<i64> = (0..=ctx.pick(600, 1500)).collect();
    lens.extend([1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20]);
    let mut v = vec![];
    for l in lens {
        for f in 0..4 {
            v.push(vec![1, l, f]);
            v.push(vec![2, l, f]);
            if l <= 4096 {
                v.push(vec![4, l, f]);
            }
        }
    }
    let n = v.len();
    ctx.par_items(&v, |p| {
        ctx.run(sl, p);
    });
    ctx.note(format!("{n} long byte strings, texts and naturals: every length up to {} bytes, and around powers of two up to 1 MiB", ctx.pick(600, 1500)));
    let sp = ctx.scen("vptr");
    ctx.par(60, |n| {
        ctx.run(sp, &[n as i64]);
    });
    ctx.note("pointers to collections");
}

// ---------------------------------------------------------------- labels

fn lab(l: &dyn Fn() -> Vec<u8>, want: &[u8], what: &str) -> Result<(), String> {
    let g = l();
    ck(g == want, || format!("{what}: the label is {g:?}, expected {want:?}"))
}

/// The label of `k` directly and through every pointer.
fn label_ptrs<K: Label + Clone + 'static>(k: &K, want: &[u8]) -> Result<(), String> {
    lab(&|| k.as_label().to_vec(), want, "key")?;
    let mut b = Box::new(k.clone());
    lab(&|| b.as_label().to_vec(), want, "Box")?;
    let n = NonNull::from(&mut *b);
    lab(&|| n.as_label().to_vec(), want, "NonNull")?;
    lab(&|| Rc::new(k.clone()).as_label().to_vec(), want, "Rc")?;
    lab(&|| Arc::new(k.clone()).as_label().to_vec(), want, "Arc")?;
    lab(&|| Box::new(Rc::new(k.clone())).as_label().to_vec(), want, "Box<Rc>")
}

/// Key `i` of a type against keys: labels injective and in key order. `known` says whether a pair
/// out of order is the listed finding (its key).
fn against<K: Label + Clone + std::fmt::Debug>(
    a: &K,
    al: &[u8],
    others: impl Iterator<Item = (K, Vec<u8>)>,
    known: &dyn Fn(&K, &K) -> Option<(&'static str, Ordering)>,
    n: &mut u64,
) -> Result<Option<String>, String> {
    let mut kf = None;
    for (b, bl) in others {
        *n += 1;
        let (x, y) = (a.as_label(), b.as_label());
        ck(&*x == al && *y == *bl, || format!("labels of {a:?} and {b:?}: {x:?}, {y:?}"))?;
        ck((*a == b) == (x == y), || format!("{a:?} and {b:?}: keys equal {}, labels equal {}", *a == b, x == y))?;
        let (o, l) = (a.cmp(&b), x.cmp(&y));
        ck(b.cmp(a) == o.reverse(), || format!("{a:?} and {b:?}: the order is not antisymmetric"))?;
        ck((Box::new(a.clone()).cmp(&Box::new(b.clone()))) == o, || "order behind a Box".into())?;
        if o != l {
            match known(a, &b) {
                Some((k, want)) if want == o => {
                    if kf.is_none() {
                        kf = Some(format!("KF[{k}] {a:?} and {b:?}: keys are {o:?}, labels {l:?}"));
                    }
                }
                _ => return Err(format!("{a:?} and {b:?}: keys are {o:?}, labels {l:?}")),
            }
        }
    }
    Ok(kf)
}

fn num_label(t: i64, x: u128, full: bool, n: &mut u64) -> Result<Option<String>, String> {
    macro_rules! go {
        ($t:ty, $u:ty, $signed:expr) => {{
            let bits = <$u>::BITS;
            let cv = |x: u128| x as $u as $t;
            let k = cv(x);
            label_ptrs(&k, &be(x, bits))?;
            let base = if bits == 16 { structured_cached(16) } else { nums(bits) };
            let near = [x.wrapping_sub(1) & mask(bits), x.wrapping_add(1) & mask(bits), x, !x & mask(bits)];
            let it = near.into_iter().chain(base.iter().copied().filter(|_| full)).map(|y| (cv(y), be(y, bits)));
            #[allow(unused_comparisons)]
            let known = |a: &$t, b: &$t| ($signed && (*a < (0 as $t)) != (*b < (0 as $t))).then(|| ("signed-order", if *a < *b { Ordering::Less } else { Ordering::Greater }));
            against(&k, &be(x, bits), it, &known, n)
        }};
    }
    match t {
        0 => go!(u8, u8, false),
        1 => go!(i8, u8, true),
        2 => go!(u16, u16, false),
        3 => go!(i16, u16, true),
        4 => go!(u32, u32, false),
        5 => go!(i32, u32, true),
        6 => go!(u64, u64, false),
        7 => go!(i64, u64, true),
        8 => go!(u128, u128, false),
        9 => go!(i128, u128, true),
        10 => go!(usize, u64, false),
        _ => go!(isize, u64, true),
    }
}

fn structured_cached(bits: u32) -> &'static [u128] {
    static C: OnceLock<Vec<u128>> = OnceLock::new();
    assert!(bits == 16);
    C.get_or_init(|| structured(16))
}

/// Parameters: type, number, compare with all.
pub fn lnum(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let x = p[1] as u64 as u128 | (p[2] as u64 as u128) << 64;
    obs.fp = (p[0] as u64) << 56 ^ (p[1] as u64).wrapping_mul(3) ^ (p[2] as u64).wrapping_mul(5);
    let name = INTS[p[0] as usize];
    obs.text = format!("{name} {x:#x}");
    match num_label(p[0], x, p[3] != 0, &mut obs.steps).map_err(|e| format!("{name}: {e}"))? {
        Some(k) => Err(k),
        None => Ok(()),
    }
}

fn set(kind: i64, n: usize) -> &'static [Vec<u8>] {
    static C: OnceLock<Vec<Vec<Vec<u8>>>> = OnceLock::new();
    let c = C.get_or_init(|| {
        let mut v = vec![];
        let byte = words(&[0u8, 1, 0x7f, 0x80, 0xff], 4);
        let text: Vec<Vec<u8>> = words(&CHARS, 3).into_iter().map(|w| w.into_iter().collect::<String>().into_bytes()).collect();
        let mut princ = vec![];
        for n in 0..=29 {
            princ.extend(patterns(n, &[0, 1, 128]));
        }
        v.push(byte);
        v.push(text);
        v.push(princ);
        for n in 1..=32 {
            v.push(patterns(n, &[0, 1, 127, 128, 254]));
        }
        v
    });
    &c[if kind < 3 { kind as usize } else { 2 + n }]
}

fn principal_key_order(a: &Principal, b: &Principal) -> Ordering {
    (a.as_slice().len(), a.as_slice()).cmp(&(b.as_slice().len(), b.as_slice()))
}

fn arr_label<const N: usize>(i: usize, n: &mut u64) -> Result<Option<String>, String>
where
    [u8; N]: Label + Prefix<[u8]>,
{
    let s = set(3, N);
    let mk = |b: &Vec<u8>| -> [u8; N] { b[..].try_into().unwrap() };
    let k = mk(&s[i]);
    label_ptrs(&k, &s[i])?;
    for l in 0..=N {
        ck(k.is_prefix(&s[i][..l]), || format!("{:?} does not have its first {l} bytes as prefix", s[i]))?;
    }
    for p in s {
        for l in [0, 1, N / 2, N - 1, N] {
            prefix_ok(&k, &s[i], &p[..l])?;
        }
        let mut long = p.clone();
        long.push(0);
        prefix_ok(&k, &s[i], &long)?;
    }
    against(&k, &s[i], s.iter().map(|b| (mk(b), b.clone())), &|_, _| None, n)
}

fn prefix_ok<K: Prefix<[u8]>>(k: &K, label: &[u8], p: &[u8]) -> Result<(), String> {
    let want = label.len() >= p.len() && label.iter().zip(p).all(|x| x.0 == x.1);
    ck(k.is_prefix(p) == want, || format!("is_prefix({p:?}) of the key {label:?} is {}", !want))?;
    let b: &[u8] = k.borrow();
    ck(b == label, || format!("the key {label:?} borrows as {b:?}"))
}

/// Parameters: kind (0 byte strings, 1 text, 2 principals, 3 arrays, 4 bool), index, length.
pub fn lbytes(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let (kind, i, len) = (p[0], p[1] as usize, p[2] as usize);
    obs.fp = p.iter().fold(11, |a, x| a * 100_003 + *x as u64);
    let n = &mut obs.steps;
    let s = set(kind, len);
    if kind != 4 && i >= s.len() {
        obs.trivial = true;
        return Ok(());
    }
    let kf = match kind {
        0 => {
            let k = s[i].clone();
            label_ptrs(&k, &k)?;
            let x: Box<[u8]> = k.clone().into_boxed_slice();
            lab(&|| x.as_label().to_vec(), &k, "Box<[u8]>")?;
            lab(&|| Rc::new(x.clone()).as_label().to_vec(), &k, "Rc<Box<[u8]>>")?;
            for q in s {
                prefix_ok(&k, &k, q)?;
                prefix_ok(&x, &k, q)?;
                // The order laws of prefixes: x0 < x1 => u0 < u1 for what follows them.
                if q.len() <= k.len() && !k.starts_with(q) {
                    ck((k[..q.len()] < q[..]) == (k < *q) , || format!("order of {k:?} and the prefix {q:?}"))?;
                }
            }
            against(&x, &k, s.iter().map(|b| (b.clone().into_boxed_slice(), b.clone())), &|_, _| None, n)?;
            against(&k, &k, s.iter().map(|b| (b.clone(), b.clone())), &|_, _| None, n)?
        }
        1 => {
            let mk = |b: &Vec<u8>| String::from_utf8(b.clone()).unwrap();
            let k = mk(&s[i]);
            label_ptrs(&k, &s[i])?;
            for q in s {
                let q = mk(q);
                let want = s[i].len() >= q.len() && s[i][..q.len()] == *q.as_bytes();
                ck(Prefix::<str>::is_prefix(&k, &q[..]) == want, || format!("is_prefix({q:?}) of {k:?} is {}", !want))?;
            }
            against(&k, &s[i], s.iter().map(|b| (mk(b), b.clone())), &|_, _| None, n)?
        }
        2 => {
            let k = Principal::from_slice(&s[i]);
            label_ptrs(&k, &s[i])?;
            let known = |a: &Principal, b: &Principal| {
                (a.as_slice().len() != b.as_slice().len()).then(|| ("principal-order", principal_key_order(a, b)))
            };
            against(&k, &s[i], s.iter().map(|b| (Principal::from_slice(b), b.clone())), &known, n)?
        }
        3 => by_len!(len, N => arr_label::<N>(i, n))?,
        _ => {
            label_ptrs(&true, &[1])?;
            label_ptrs(&false, &[0])?;
            against(&(i == 1), &[i as u8], [(false, vec![0]), (true, vec![1])].into_iter(), &|_, _| None, n)?
        }
    };
    match kf {
        Some(k) => Err(k),
        None => Ok(()),
    }
}

/// Long keys that agree in all but a few bytes. Parameters: length of the common part.
pub fn llong(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let len = p[0] as usize;
    obs.fp = p[0] as u64;
    let base: Vec<u8> = (0..len).map(|i| b'a' + (i % 23) as u8).collect();
    let mut ks: Vec<Vec<u8>> = vec![base.clone()];
    for x in [0u8, b'a', b'z', 0x7f] {
        let mut k = base.clone();
        k.push(x);
        ks.push(k.clone());
        k.push(0);
        ks.push(k);
        for at in [0, 1, len / 2, len.saturating_sub(1), 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256] {
            if at < len {
                let mut k = base.clone();
                k[at] = x;
                ks.push(k);
            }
        }
    }
    for cut in [1, 2, len / 2] {
        if cut <= len {
            ks.push(base[..len - cut].to_vec());
        }
    }
    ks.sort();
    ks.dedup();
    let txt = |b: &Vec<u8>| String::from_utf8(b.clone()).expect("ascii");
    let mut n = 0;
    for k in &ks {
        let (bx, tx) = (k.clone().into_boxed_slice(), txt(k));
        if len < 2000 {
            label_ptrs(k, k)?;
            label_ptrs(&tx, k)?;
        }
        against(k, k, ks.iter().map(|b| (b.clone(), b.clone())), &|_, _| None, &mut n)?;
        against(&bx, k, ks.iter().map(|b| (b.clone().into_boxed_slice(), b.clone())), &|_, _| None, &mut n)?;
        against(&tx, k, ks.iter().map(|b| (txt(b), b.clone())), &|_, _| None, &mut n)?;
        for q in &ks {
            prefix_ok(k, k, q)?;
            prefix_ok(&bx, k, q)?;
            let want = k.len() >= q.len() && k[..q.len()] == q[..];
            ck(Prefix::<str>::is_prefix(&tx, &txt(q)[..]) == want, || "is_prefix of long texts".into())?;
        }
    }
    obs.steps = n;
    Ok(())
}

/// Two pointers as keys. Parameters: two numbers, same allocation order or not.
pub fn lnonnull(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let mut a = [p[0] as u8, p[1] as u8];
    let q = a.as_mut_ptr();
    // SAFETY: both are in the array, which outlives them.
    let (x, y) = unsafe { (NonNull::new_unchecked(q), NonNull::new_unchecked(q.add(1))) };
    obs.fp = (p[0] * 256 + p[1]) as u64;
    obs.steps = 1;
    ck(x.as_label()[..] == [p[0] as u8] && y.as_label()[..] == [p[1] as u8], || "label of a NonNull".into())?;
    let (o, l) = (x.cmp(&y), x.as_label().cmp(&y.as_label()));
    if o != l {
        let m = format!("NonNull keys to {} and {}: keys are {o:?}, labels {l:?}", p[0], p[1]);
        return Err(if o == Ordering::Less { format!("KF[nonnull-order] {m}") } else { m });
    }
    Ok(())
}

/// Labels of pages of keys of variable length. Parameters: keys as numbers of words, items each.
pub fn lpaged(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    static W: OnceLock<Vec<String>> = OnceLock::new();
    let w = W.get_or_init(|| page_words());
    let items = p[0];
    let keys: Vec<&String> = p[1..].iter().map(|i| &w[*i as usize]).collect();
    let mut c: Paged<String, u8, 1> = Paged::new();
    for r in 0..items {
        for k in &keys {
            c.insert(k.to_string(), r as u8);
        }
    }
    let mut sorted = keys.clone();
    sorted.sort();
    sorted.dedup();
    let copies = |k: &String| keys.iter().filter(|x| **x == k).count() as i64 * items;
    let mut want: Vec<(Vec<u8>, usize)> = vec![];
    for k in &sorted {
        for pg in 0..copies(k) {
            let mut l = k.as_bytes().to_vec();
            l.extend((pg as u32).to_be_bytes());
            want.push((l, k.len()));
        }
    }
    let t = spec::of(&c.as_hash_tree());
    let got: Vec<Vec<u8>> = spec::labels(&t).iter().map(|x| x.to_vec()).collect();
    obs.steps = want.len() as u64;
    let mut f = Fp::new();
    f.add(format!("{got:?}").as_bytes());
    obs.fp = f.0;
    obs.text = format!("{sorted:?}");
    ck(got == want.iter().map(|x| x.0.clone()).collect::<Vec<_>>(), || format!("labels are {got:?}, expected {want:?}"))?;
    let mut u = got.clone();
    u.sort();
    u.dedup();
    ck(u.len() == got.len(), || "two pages have the same label".into())?;
    ck(spec::digest(&t) == c.root_hash(), || "digest".into())?;
    for k in &sorted {
        let last = copies(k) - 1;
        ck(c.get_last_page_number(k) == Some(last as usize), || format!("last page of {k:?}"))?;
    }
    // Out of order: the listed finding, when one key is a proper prefix of the other.
    let mut kf = None;
    for i in 0..want.len() {
        for j in i + 1..want.len() {
            let (a, b) = (&want[i], &want[j]);
            if a.0 >= b.0 {
                let (x, y) = (&a.0[..a.1], &b.0[..b.1]);
                let m = format!("pages of keys {x:?} and {y:?}: labels {:?} and {:?} are not in order", a.0, b.0);
                if !(x.len() < y.len() && y.starts_with(x)) {
                    return Err(m);
                }
                kf = Some(format!("KF[paged-order] {m}"));
            }
        }
    }
    for k in &sorted {
        let wt = spec::of(&c.witness(k, 0));
        let mut l = k.as_bytes().to_vec();
        l.extend([0; 4]);
        ck(matches!(spec::lookup(&wt, &l), Look::Found(_)), || format!("witness of {k:?}, page 0"))?;
        ck(spec::digest(&wt) == c.root_hash(), || format!("witness of {k:?}, page 0: digest"))?;
    }
    match kf {
        Some(k) => Err(k),
        None => Ok(()),
    }
}

fn page_words() -> Vec<String> {
    words(&['\0', '\u{1}', 'a'], 3).into_iter().map(|w| w.into_iter().collect()).chain(["\0\0\0\0", "\0\0\0\0\0", "a\0\0\0\0", "a\0\0\0\u{1}", "a\0\0\0\u{1}\0\0\0\0"].map(String::from)).collect()
}

pub fn c15(ctx: &Ctx) {
    each_char(ctx, "lchars");
    let si = ctx.scen("lnum");
    for t in 0..12i64 {
        let v = nums(bits_of(t));
        let all = bits_of(t) != 16 || !ctx.quick();
        let few = structured_cached(16);
        ctx.par(v.len() as u64, |i| {
            let x = v[i as usize];
            let full = all || few.binary_search(&x).is_ok();
            ctx.run(si, &[t, x as u64 as i64, (x >> 64) as u64 as i64, full as i64]);
        });
        ctx.note(format!("{}: {} keys, all pairs of {} of them, and every key with its successor", INTS[t as usize], v.len(), if bits_of(t) == 16 { few.len() } else { v.len() }));
    }
    let sb = ctx.scen("lbytes");
    let mut v = vec![vec![4, 0, 0], vec![4, 1, 0]];
    for kind in 0..3 {
        for i in 0..set(kind, 0).len() as i64 {
            v.push(vec![kind, i, 0]);
        }
    }
    for n in 1..=32 {
        for i in 0..set(3, n).len() as i64 {
            v.push(vec![3, i, n as i64]);
        }
    }
    ctx.par_items(&v, |p| {
        ctx.run(sb, p);
    });
    ctx.note(format!("all pairs of {} byte strings, {} texts, {} principals, and of the patterns of arrays of 1..=32 bytes; every prefix", set(0, 0).len(), set(1, 0).len(), set(2, 0).len()));
    let sl = ctx.scen("llong");
    let mut lens: Vec<i64> = (0..=ctx.pick(300, 1100)).collect();
    lens.extend([511, 512, 513, 1023, 1024, 1025, 4096, 65535, 65536, 65537]);
    ctx.par(lens.len() as u64, |i| {
        ctx.run(sl, &[lens[i as usize]]);
    });
    ctx.note("byte strings and texts with a common part of every length up to 300, and around powers of two up to 64 KiB: all pairs, all prefixes");
    let sn = ctx.scen("lnonnull");
    ctx.par(65536, |i| {
        ctx.run(sn, &[i as i64 / 256, i as i64 % 256]);
    });
    ctx.note("all pairs of pointers to bytes");
    let sp = ctx.scen("lpaged");
    let n = page_words().len() as i64;
    let mut v = vec![];
    for a in 0..n {
        for b in 0..n {
            for items in 1..=3 {
                v.push(vec![items, a, b]);
            }
            for c in 0..ctx.pick(8, n) {
                v.push(vec![2, a, b, c]);
            }
        }
    }
    ctx.par_items(&v, |p| {
        ctx.run(sp, p);
    });
    ctx.note(format!("pages of all pairs of {n} texts"));
}
