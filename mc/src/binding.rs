//! Different contents never share a root hash: contents of whole bounded domains, each made on the
//! real code, with a table from root hash to contents.
use crate::engine::{Ctx, Fp, Obs};
use crate::group::{build, get_mut, In, PATHS};
use crate::hist::{self, ck, op, Model};
use candid::{Nat, Principal};
use certified_vars::label::Label;
use certified_vars::{AsHashTree, Hash, HashTree, Map, Paged, Seq};
use std::collections::HashMap;
use std::fmt::Debug;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

/// Contents in a canonical form, root hash, digests of witnesses handed out.
type Out = (String, Hash, Vec<Hash>);

fn d(t: HashTree<'_>) -> Hash {
    t.reconstruct()
}

const S: [&str; 10] = ["", "\0", "a", "aa", "ab", "a\0", "b", "ba", "\0a", "\u{e9}"];
fn bs(i: i64) -> Vec<u8> {
    match i {
        // All strings of up to two bytes over four values.
        0 => vec![],
        1..=4 => vec![[0, 1, 97, 255][i as usize - 1]],
        5..=20 => vec![[0, 1, 97, 255][(i as usize - 5) / 4], [0, 1, 97, 255][(i as usize - 5) % 4]],
        // Look like parts of hash trees: domain separators, digests of other values.
        21 => b"\x0fic-hashtree-leaf".to_vec(),
        22 => b"\x12ic-hashtree-labeleda".to_vec(),
        23 => b"\x10ic-hashtree-fork".to_vec(),
        24 => b"\x11ic-hashtree-empty".to_vec(),
        25 => [0; 32].to_vec(),
        26 => crate::spec::leaf_digest(b"").to_vec(),
        27 => crate::spec::leaf_digest(b"a").to_vec(),
        28 => [&crate::spec::leaf_digest(b"")[..], &crate::spec::leaf_digest(b"a")[..]].concat(),
        29 => Map::<u8, u8>::new().root_hash().to_vec(),
        30 => vec![0; 33],
        31 => vec![0; 64],
        _ => vec![0x61; i as usize],
    }
}
const NB: i64 = 40;

fn map_out<K: Label + Debug + 'static, V: AsHashTree + Debug + 'static>(m: &Map<K, V>) -> Out {
    let mut w = vec![d(m.as_hash_tree()), d(m.witness_keys())];
    for (k, _) in m.iter() {
        w.push(d(m.witness(k)));
    }
    (m.iter().map(|(k, v)| format!("{k:?}={v:?};")).collect(), m.root_hash(), w)
}

fn history<K: hist::KT, V: hist::VT>(p: &[i64]) -> Result<Out, String> {
    let mut s: hist::Sut<K, V> = hist::Sut::new(p[0]);
    let mut m: Model<V> = Model::new();
    for (j, o) in p[1..].iter().enumerate() {
        hist::apply(&mut s, &mut m, *o, j as u64, false)?;
    }
    let t = s.tree();
    let mut w = vec![d(t.as_hash_tree()), d(t.keys())];
    for i in m.keys() {
        w.push(d(t.witness(&K::mk(*i))));
    }
    Ok((m.iter().map(|(k, v)| format!("{k}={v:?};")).collect(), t.root_hash(), w))
}

fn single<V: AsHashTree + 'static>(c: String, v: V) -> Out {
    let mut m = Map::new();
    m.insert(7u8, v);
    let w = vec![d(m.as_hash_tree()), d(m.witness(&7))];
    (c, m.root_hash(), w)
}
fn single_key<K: Label + 'static>(c: String, k: K) -> Out {
    let mut m = Map::new();
    m.insert(k, 1u8);
    let w = vec![d(m.as_hash_tree()), d(m.witness_keys())];
    (c, m.root_hash(), w)
}

/// Samples of a number type: all values of up to 16 bits, otherwise every two-bit pattern and the
/// numbers around every power of two.
macro_rules! num {
    ($t:ty, $i:expr, $f:ident) => {{
        let bits = std::mem::size_of::<$t>() as i64 * 8;
        let v = if bits <= 16 {
            ($i < 1 << bits).then(|| $i as $t)
        } else {
            let a = $i / bits;
            let b = $i % bits;
            let one: $t = 1;
            let hi = one.wrapping_shl(b as u32);
            if a < bits {
                Some(hi | one.wrapping_shl(a as u32))
            } else if a == bits {
                Some(hi.wrapping_sub(1))
            } else if a == bits + 1 {
                Some(!hi)
            } else {
                None
            }
        };
        v.map(|v| $f(format!("{v}"), v))
    }};
}
macro_rules! arrays {
    ($i:expr, $f:ident, $n:expr; $($k:literal)*) => {
        match $n {
            $($k => ($i < 8 * $k + 2).then(|| {
                let mut a = [0u8; $k];
                match $i {
                    0 => (),
                    1 => a = [255; $k],
                    i => a[(i as usize - 2) / 8] = 1 << ((i - 2) % 8),
                }
                $f(format!("{a:?}"), a)
            }),)*
            n => panic!("array {n}"),
        }
    };
}
pub const VTYPES: i64 = 60;
fn value(ty: i64, i: i64) -> Option<Out> {
    match ty {
        0 => num!(u8, i, single),
        1 => num!(i8, i, single),
        2 => num!(u16, i, single),
        3 => num!(i16, i, single),
        4 => num!(u32, i, single),
        5 => num!(i32, i, single),
        6 => num!(u64, i, single),
        7 => num!(i64, i, single),
        8 => num!(u128, i, single),
        9 => num!(i128, i, single),
        10 => num!(usize, i, single),
        11 => num!(isize, i, single),
        // Floats by their bits: zeros, infinities, subnormals and every single-bit pattern.
        12 => (i < 32 * 32).then(|| {
            let b = 1u32 << (i / 32) | 1 << (i % 32);
            single(b.to_string(), f32::from_bits(b))
        }),
        13 => (i < 64 * 64).then(|| {
            let b = 1u64 << (i / 64) | 1 << (i % 64);
            single(b.to_string(), f64::from_bits(b))
        }),
        14 => (i < 2).then(|| single(i.to_string(), i == 1)),
        15 => (i < NB).then(|| single(format!("{:?}", bs(i)), bs(i))),
        16 => (i < 10).then(|| single(S[i as usize].into(), S[i as usize].to_string())),
        17 => (i < 10).then(|| single(S[i as usize].into(), S[i as usize])),
        18 => (i < 21).then(|| single(format!("{:?}", bs(i)), Principal::from_slice(&bs(i)))),
        19 => (i < 600).then(|| {
            let n = (0..i / 3).fold(Nat::from(1u8), |n, _| n * 2u32);
            let n = match i % 3 {
                0 => n,
                1 => n + 1u32,
                _ => n * 3u32 + 255u32,
            };
            single(n.to_string(), n)
        }),
        20 => (i < NB).then(|| single(format!("{:?}", bs(i)), Box::new(bs(i)))),
        21 => (i < NB).then(|| single(format!("{:?}", bs(i)), Rc::new(bs(i)))),
        22 => (i < NB).then(|| single(format!("{:?}", bs(i)), Arc::new(bs(i)))),
        23 => (i < NB).then(|| {
            let b: &'static [u8] = Box::leak(bs(i).into_boxed_slice());
            single(format!("{b:?}"), b)
        }),
        _ if (28..60).contains(&ty) => arrays!(i, single, ty - 27; 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32),
        _ => None,
    }
}
fn label(ty: i64, i: i64) -> Option<Out> {
    match ty {
        0 => num!(u8, i, single_key),
        1 => num!(i8, i, single_key),
        2 => num!(u16, i, single_key),
        3 => num!(i16, i, single_key),
        4 => num!(u32, i, single_key),
        5 => num!(i32, i, single_key),
        6 => num!(u64, i, single_key),
        7 => num!(i64, i, single_key),
        8 => num!(u128, i, single_key),
        9 => num!(i128, i, single_key),
        10 => num!(usize, i, single_key),
        11 => num!(isize, i, single_key),
        14 => (i < 2).then(|| single_key(i.to_string(), i == 1)),
        15 => (i < NB).then(|| single_key(format!("{:?}", bs(i)), bs(i))),
        16 => (i < 10).then(|| single_key(S[i as usize].into(), S[i as usize].to_string())),
        17 => (i < NB).then(|| single_key(format!("{:?}", bs(i)), bs(i).into_boxed_slice())),
        18 => (i < 21).then(|| single_key(format!("{:?}", bs(i)), Principal::from_slice(&bs(i)))),
        20 => (i < NB).then(|| single_key(format!("{:?}", bs(i)), Box::new(bs(i)))),
        21 => (i < NB).then(|| single_key(format!("{:?}", bs(i)), Rc::new(bs(i)))),
        22 => (i < NB).then(|| single_key(format!("{:?}", bs(i)), Arc::new(bs(i)))),
        _ if (28..60).contains(&ty) => arrays!(i, single_key, ty - 27; 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32),
        _ => None,
    }
}

fn seq_out<X: AsHashTree + Debug>(s: &Seq<X>) -> Out {
    (format!("{:?}", s.as_vec()), s.root_hash(), vec![d(s.as_hash_tree())])
}

fn paged<const N: usize>(p: &[i64]) -> Out {
    let mut c: Paged<u8, u8, N> = Paged::new();
    for x in p {
        c.insert((x / 4) as u8, (x % 4) as u8);
    }
    let mut s = String::new();
    let mut w = vec![d(c.as_hash_tree())];
    for k in 0..4u8 {
        let mut n = 0;
        while let Some(x) = c.get(&k, n) {
            s += &format!("{k}/{n}={:?};", x.as_vec());
            w.push(d(c.witness(&k, n)));
            n += 1;
        }
        w.push(d(c.witness_last_page_number(&k)));
    }
    (s, c.root_hash(), w)
}
/// Like `paged`, with contents taken from what was inserted instead of what is read back.
fn paged_model<const N: usize>(p: &[i64]) -> String {
    (0..4).map(|k| {
        let v: Vec<i64> = p.iter().filter(|x| **x / 4 == k).map(|x| x % 4).collect();
        v.chunks(N).enumerate().map(|(n, c)| format!("{k}/{n}={c:?};")).collect::<String>()
    }).collect()
}

/// Bytes that may be taken for padding, separators or other bytes.
const SPECIAL: [u8; 8] = [0, b' ', b'\n', b'/', b'A', b'.', b'0', 0x7f];
const FAMS: [&str; 15] = [
    "maps, by history",
    "maps of text to bytes, by history",
    "maps of bytes to bytes",
    "values",
    "keys",
    "sequences",
    "sequences of text",
    "sequences of sequences",
    "maps of sequences",
    "maps of maps",
    "paged",
    "groups",
    "long contents",
    "sequences of maps",
    "pages of sequences",
];

/// A sequence of the items made in one of four ways.
fn made<X: AsHashTree>(way: i64, mut v: Vec<X>) -> Seq<X> {
    match way {
        0 => v.into_iter().collect(),
        1 => {
            let mut s = Seq::new();
            v.into_iter().for_each(|x| s.append(x));
            s
        }
        2 => {
            let rest = v.split_off(v.len() / 2);
            let mut s: Seq<X> = v.into();
            s.extend(rest);
            s
        }
        _ => {
            let rest = v.split_off(v.len().min(1));
            let mut s: Seq<X> = v.into_iter().collect();
            rest.into_iter().for_each(|x| s.append(x));
            s
        }
    }
}

fn run(fam: i64, p: &[i64]) -> Result<Option<Out>, String> {
    Ok(Some(match fam {
        0 => history::<u8, u32>(p)?,
        1 => history::<String, Vec<u8>>(p)?,
        2 => {
            let mut m: Map<Vec<u8>, Vec<u8>> = Map::new();
            for x in p {
                m.insert(bs(x / NB), bs(x % NB));
            }
            map_out(&m)
        }
        3 => return Ok(value(p[0], p[1])),
        4 => return Ok(label(p[0], p[1])),
        5 => {
            let mut s: Seq<u8> = Seq::new();
            for x in p {
                match x {
                    0..=3 => s.append(*x as u8),
                    4 => s.extend([1, 2]),
                    5 => s.clear(),
                    _ => s.extend(&[0, 0]),
                }
            }
            seq_out(&s)
        }
        6 => seq_out(&made(p[0], p[1..].iter().map(|i| S[*i as usize].to_string()).collect())),
        7 => {
            // 0: a new inner sequence, otherwise an item of the last one.
            let mut v: Vec<Vec<u8>> = vec![];
            for x in &p[1..] {
                if *x == 0 {
                    v.push(vec![]);
                } else if let Some(l) = v.last_mut() {
                    l.push(*x as u8);
                }
            }
            let s = made(p[0], v.into_iter().map(|x| made((p[0] + 1) % 4, x)).collect());
            let c = format!("{:?}", s.iter().map(|x| x.as_vec()).collect::<Vec<_>>());
            (c, s.root_hash(), vec![d(s.as_hash_tree())])
        }
        8 => {
            let mut m: Map<u8, Seq<u8>> = Map::new();
            for x in p {
                let (k, v) = ((x / 4 % 4) as u8, (x % 4) as u8);
                match x / 16 {
                    0 => m.append_deep(k, v),
                    1 => {
                        if let Some(s) = m.get_mut(&k) {
                            s.append(v)
                        }
                    }
                    _ => {
                        m.insert(k, Seq::new());
                    }
                }
            }
            let (_, r, w) = map_out(&m);
            (m.iter().map(|(k, s)| format!("{k}={:?};", s.as_vec())).collect(), r, w)
        }
        9 => {
            let mut m: Map<u8, Map<u8, u8>> = Map::new();
            for x in p {
                let (k, i, v) = ((x / 16 % 4) as u8, (x / 4 % 4) as u8, (x % 4) as u8);
                match x / 64 {
                    0 => {
                        m.entry(k).or_default().insert(i, v);
                    }
                    1 => {
                        if let Some(e) = m.get_mut(&k).and_then(|m| m.get_mut(&i)) {
                            *e = v;
                        }
                    }
                    2 => {
                        if let Some(m) = m.get_mut(&k) {
                            m.remove(&i);
                        }
                    }
                    _ => {
                        m.insert(k, Map::new());
                    }
                }
            }
            map_out(&m)
        }
        10 => {
            let (o, c) = match p[0] {
                1 => (paged::<1>(&p[1..]), paged_model::<1>(&p[1..])),
                2 => (paged::<2>(&p[1..]), paged_model::<2>(&p[1..])),
                3 => (paged::<3>(&p[1..]), paged_model::<3>(&p[1..])),
                _ => (paged::<7>(&p[1..]), paged_model::<7>(&p[1..])),
            };
            (c, o.1, o.2)
        }
        11 => {
            // Leaves: path * 16 + contents; negative: change of leaf.
            let leaves: Vec<i64> = p.iter().copied().filter(|x| *x >= 0).collect();
            let n = leaves.len();
            let paths: Vec<Vec<String>> = leaves.iter().map(|x| PATHS[*x as usize / 16].iter().map(|s| s.to_string()).collect()).collect();
            if n == 0 || (0..n).any(|i| (0..i).any(|j| { let m = paths[i].len().min(paths[j].len()); paths[i][..m] == paths[j][..m] })) {
                return Ok(None);
            }
            let mut g = build(&(0..n).collect::<Vec<_>>(), &paths, &vec![3; n], 0)?;
            let mut c: Vec<String> = vec![];
            let mut held: Vec<String> = vec![String::new(); n];
            let contents = |x: i64| match x {
                0 => In::Bytes(vec![]),
                1 => In::Bytes(vec![1]),
                2 => In::Bytes(vec![1, 1]),
                3 => In::Seq(Seq::new()),
                4 => In::Seq(vec![1].into()),
                5 => In::Seq(vec![1, 1].into()),
                6 => In::Map(Map::new()),
                7 => In::Map([(1, 1)].into_iter().collect()),
                8 => In::Map([(1, 1), (2, 1)].into_iter().collect()),
                _ => In::Map([(1, 2)].into_iter().collect()),
            };
            for (i, x) in leaves.iter().enumerate() {
                *get_mut(&mut g, i) = contents(x % 16);
                held[i] = format!("{:?}", contents(x % 16));
            }
            for x in p.iter().filter(|x| **x < 0) {
                let (i, what) = ((-x / 16) as usize % n, -x % 16);
                let l = get_mut(&mut g, i);
                match (what, &mut *l) {
                    (0, In::Bytes(b)) => b.push(9),
                    (0, In::Seq(s)) => s.append(9),
                    (0, In::Map(m)) => {
                        m.insert(9, 9);
                    }
                    (w, l) => *l = contents(w - 1),
                }
                held[i] = format!("{l:?}");
            }
            for (p, h) in paths.iter().zip(&held) {
                c.push(format!("{p:?}={h}"));
            }
            c.sort();
            (c.join(";"), g.root_hash(), vec![d(g.as_hash_tree()), d(g.witness().build()), d(crate::group::select_plain(g.witness(), 0, 0).build())])
        }
        // Long contents: kind, length, changed byte (or -1, or below: special bytes everywhere, at the
        // end, at the start, at both ends).
        12 => {
            let (kind, len, at) = (p[0], p[1] as usize, p[2]);
            let mut b = vec![b'a'; len];
            if at >= 0 {
                b[at as usize] = b'b';
            }
            if at < -1 {
                let x = SPECIAL[(-2 - at) as usize % SPECIAL.len()];
                match (-2 - at) as usize / SPECIAL.len() {
                    0 => b.fill(x),
                    1 => b.iter_mut().last().into_iter().for_each(|l| *l = x),
                    2 => b.iter_mut().take(1).for_each(|l| *l = x),
                    _ => {
                        b.iter_mut().take(1).for_each(|l| *l = x);
                        b.iter_mut().last().into_iter().for_each(|l| *l = x);
                    }
                }
            }
            let c = if at < -1 || len <= 2 { format!("{len} bytes {}", crate::spec::hex(&crate::spec::sha(&[&b]))) } else { format!("{len} bytes, other at {at}") };
            let text = || String::from_utf8(b.clone()).unwrap();
            match kind {
                0 => single(c, b),
                1 => single(c, text()),
                2 => single_key(c, b),
                3 => single_key(c, text()),
                4 => single_key(c, b.into_boxed_slice()),
                5 => {
                    let s: Seq<u8> = b.into();
                    let mut t: Seq<u8> = Seq::new();
                    t.append(1);
                    for x in s.iter() {
                        t.append(*x);
                    }
                    (c, t.root_hash(), vec![d(t.as_hash_tree())])
                }
                6 => {
                    let mut s: Seq<Vec<u8>> = Seq::new();
                    s.append(b);
                    (c, s.root_hash(), vec![d(s.as_hash_tree())])
                }
                7 => {
                    let s: Seq<u8> = b.into();
                    (c, s.root_hash(), vec![d(s.as_hash_tree())])
                }
                8 => {
                    // A directory with a long name (or a path of names of one byte).
                    let g = certified_vars::collections::group::builder::GroupBuilder::new().insert([text()], 7u8).build();
                    (c, g.root_hash(), vec![d(g.as_hash_tree())])
                }
                9 => {
                    let g = certified_vars::collections::group::builder::GroupBuilder::new().insert(["x".to_string(), text(), "y".to_string()], text()).build();
                    (c, g.root_hash(), vec![d(g.as_hash_tree())])
                }
                10 => {
                    let names: Vec<String> = b.iter().map(|x| (*x as char).to_string()).collect();
                    let g = certified_vars::collections::group::builder::GroupBuilder::new().insert(if names.is_empty() { vec!["".to_string()] } else { names }, 7u8).build();
                    (c, g.root_hash(), vec![d(g.as_hash_tree())])
                }
                11 => {
                    // A map of this many entries, one of them with another value.
                    let m: Map<u16, u8> = b.iter().enumerate().map(|(i, x)| (i as u16, *x)).collect();
                    (c, m.root_hash(), vec![d(m.as_hash_tree())])
                }
                12 => {
                    let mut g: Paged<u8, u8, 3> = Paged::new();
                    for x in &b {
                        g.insert(1, *x);
                    }
                    (c, g.root_hash(), vec![d(g.as_hash_tree())])
                }
                13 => {
                    let b: &'static [u8] = Box::leak(b.into_boxed_slice());
                    single(c, b)
                }
                14 => {
                    let b: &'static str = Box::leak(text().into_boxed_str());
                    single(c, b)
                }
                15 => {
                    // A number with this many decimal digits.
                    let digits: String = "1".chars().chain(b.iter().map(|x| if *x == b'a' { '3' } else { '4' })).collect();
                    single(c, Nat::parse(digits.as_bytes()).unwrap())
                }
                k => panic!("kind {k}"),
            }
        }
        13 => {
            let maps = p[1..].iter().map(|x| (0..2u8).filter(|k| x >> k & 1 != 0).map(|k| (k, (x / 4) as u8)).collect::<Map<u8, u8>>()).collect();
            seq_out(&made(p[0], maps))
        }
        14 => {
            let mut c: Paged<u8, Seq<u8>, 2> = Paged::new();
            let mut m = vec![vec![]; 2];
            for x in p {
                let v = vec![1; (x % 4) as usize];
                c.insert((x / 4) as u8, made(x % 3, v.clone()));
                m[*x as usize / 4].push(v);
            }
            (format!("{m:?}"), c.root_hash(), vec![d(c.as_hash_tree())])
        }
        f => panic!("family {f}"),
    }))
}

fn fp(s: &str) -> u64 {
    let mut f = Fp::new();
    f.add(s.as_bytes());
    f.0
}

/// Parameters: family, its parameters...
pub fn one(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let Some((c, root, w)) = run(p[0], &p[1..])? else {
        obs.trivial = true;
        return Ok(());
    };
    obs.steps = p.len() as u64 - 1;
    obs.fp = fp(&c) ^ p[0] as u64;
    for x in w {
        ck(x == root, || format!("{}: a witness of {c} has another digest than its root hash", FAMS[p[0] as usize]))?;
    }
    obs.extra = root.chunks(8).map(|b| i64::from_be_bytes(b.try_into().unwrap())).collect();
    obs.extra.push(fp(&c) as i64);
    obs.text = c;
    Ok(())
}

/// Two contents. Parameters: family, number of parameters of the first, those, those of the second.
pub fn pair(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let n = p[1] as usize;
    let a = run(p[0], &p[2..2 + n])?;
    let b = run(p[0], &p[2 + n..])?;
    obs.trivial = a.is_none() || b.is_none();
    obs.steps = p.len() as u64 - 2;
    let (Some(a), Some(b)) = (a, b) else { return Ok(()) };
    ck(a.0 == b.0 || a.1 != b.1, || format!("{}: {} and {} have the same root hash", FAMS[p[0] as usize], a.0, b.0))
}

type Table = Vec<Mutex<HashMap<(i64, i64, [i64; 4]), (i64, Vec<i64>)>>>;

fn add(ctx: &Ctx, t: &Table, one: usize, pair: usize, p: &[i64]) {
    let Some(o) = ctx.run(one, p) else { return };
    if o.extra.len() != 5 {
        return;
    }
    let sub = match p[0] {
        3 | 4 | 10 | 12 => p[1],
        _ => 0,
    };
    let r: [i64; 4] = o.extra[..4].try_into().unwrap();
    let other = {
        let mut t = t[(r[0] as u64 % t.len() as u64) as usize].lock().unwrap();
        match t.get(&(p[0], sub, r)) {
            Some((c, q)) => (*c != o.extra[4]).then(|| q.clone()),
            None => {
                t.insert((p[0], sub, r), (o.extra[4], p.to_vec()));
                None
            }
        }
    };
    if let Some(q) = other {
        let mut x = vec![p[0], q.len() as i64 - 1];
        x.extend(&q[1..]);
        x.extend(&p[1..]);
        ctx.run(pair, &x);
    }
}

fn lists(alpha: &[i64], n: usize) -> Vec<Vec<i64>> {
    let mut all: Vec<Vec<i64>> = vec![vec![]];
    let mut cur = all.clone();
    for _ in 0..n {
        cur = cur.iter().flat_map(|h| alpha.iter().map(move |o| [&h[..], &[*o]].concat())).collect();
        all.extend(cur.clone());
    }
    all
}

pub fn c21(ctx: &Ctx) {
    let (o, pr) = (ctx.scen("bone"), ctx.scen("bpair"));
    let table: Table = (0..256).map(|_| Default::default()).collect();
    let go = |items: &[Vec<i64>], what: String| {
        let before: usize = table.iter().map(|t| t.lock().unwrap().len()).sum();
        ctx.par_items(items, |p| add(ctx, &table, o, pr, p));
        let after: usize = table.iter().map(|t| t.lock().unwrap().len()).sum();
        ctx.note(format!("{what}: {} cases, {} different root hashes", items.len(), after - before));
    };
    let with = |pre: &[i64], v: Vec<Vec<i64>>| -> Vec<Vec<i64>> { v.into_iter().map(|x| [pre, &x[..]].concat()).collect() };
    for fam in 0..2 {
        let mut alpha = vec![];
        for k in hist::KEYED {
            if matches!(*k, hist::WITNESS | hist::E_READ | hist::GETMUT_NOP) {
                continue;
            }
            for j in [0, 2, 5] {
                alpha.push(op(*k, j));
            }
        }
        alpha.push(op(hist::CLEAR, 0));
        let dd = ctx.pick(3, 4);
        for which in 0..2 {
            go(&with(&[fam, which], lists(&alpha, dd)), format!("{}: all histories of length <= {dd} over {} operations", FAMS[fam as usize], alpha.len()));
        }
        // Deep trees: all orders of inserting 6 keys, then one change of each kind.
        let n = ctx.pick(5, 7);
        let mut items = vec![];
        for perm in perms(n) {
            for k in [hist::INS, hist::REM, hist::GETMUT, hist::E_OCCMUT, hist::E_REM] {
                for x in 0..n {
                    let mut p = vec![fam, x % 2];
                    p.extend(perm.iter().map(|i| op(hist::INS, *i)));
                    p.push(op(k, x));
                    items.push(p);
                }
            }
        }
        go(&items, format!("{}: all orders of inserting {n} keys, then every change of every key", FAMS[fam as usize]));
    }
    let mut items: Vec<Vec<i64>> = vec![];
    for k in 0..NB {
        for v in 0..NB {
            items.push(vec![2, k * NB + v]);
            if k < 21 && v < 21 || ctx.tier == crate::engine::Tier::Thorough {
                for k2 in 0..ctx.pick(10, 21) {
                    for v2 in 0..ctx.pick(10, 21) {
                        if k2 != k {
                            items.push(vec![2, k * NB + v, k2 * NB + v2]);
                        }
                    }
                }
            }
        }
    }
    // Three entries over few keys and values, in every order.
    for l in lists(&(0..4).flat_map(|k| (0..3).map(move |v| [0, 3, 5, 13][k as usize] * NB + [0, 3, 26][v as usize])).collect::<Vec<_>>(), ctx.pick(4, 5)) {
        items.push([&[2], &l[..]].concat());
    }
    go(&items, "maps of bytes to bytes: one and two entries over all short byte strings and strings that look like parts of hash trees, lists of insertions over 4 keys and 3 values".into());
    let mut items = vec![];
    for kind in 0..16 {
        // A change of every byte of every length up to `all`, and of some longer lengths.
        let (all, some): (i64, &[i64]) = match kind {
            5 | 7 | 12 => (ctx.pick(40, 80), ctx.pick(&[64, 65, 100], &[100, 127, 128, 129, 256, 257])),
            8..=10 => (ctx.pick(70, 140), ctx.pick(&[127, 128, 255, 256], &[255, 256, 257, 300])),
            11 => (ctx.pick(40, 100), ctx.pick(&[100], &[255, 256, 257, 513])),
            15 => (ctx.pick(90, 200), &[300]),
            _ => (ctx.pick(140, 300), ctx.pick(&[191, 192, 193, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025], &[511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8193])),
        };
        for len in (0..=all).chain(some.iter().copied()) {
            for at in if kind == 15 { -1 } else { -1 - 4 * SPECIAL.len() as i64 }..len {
                if len == 0 && at < -1 {
                    continue;
                }
                items.push(vec![12, kind, len, at]);
            }
        }
    }
    go(&items, "long contents: one byte changed at every position, and zeros, blanks and other special bytes everywhere or at the ends, of values, labels, sequences, maps, paged collections and group paths of every length up to a bound and of lengths around powers of two beyond it".into());
    for fam in [3, 4] {
        let mut items = vec![];
        for ty in 0..VTYPES {
            for i in 0..1i64 << 17 {
                let there = if fam == 3 { value(ty, i).is_some() } else { label(ty, i).is_some() };
                if !there {
                    break;
                }
                items.push(vec![fam, ty, i]);
            }
        }
        go(&items, format!("{} of every provided type: all values of up to 16 bits, bit patterns and borders of wider ones", FAMS[fam as usize]));
    }
    let n = ctx.pick(6, 8);
    go(&with(&[5], lists(&[0, 1, 2, 3, 4, 5, 6], n - 1)), format!("sequences: all histories of length <= {}", n - 1));
    go(&with(&[5], lists(&[0, 1], n + 6)), format!("sequences: all lists of length <= {} over two items", n + 6));
    for way in 0..4 {
        go(&with(&[6, way], lists(&(0..10).collect::<Vec<_>>(), ctx.pick(4, 5))), format!("sequences of text made in way {way}: all lists over ten texts"));
        go(&with(&[7, way], lists(&[0, 1, 2], ctx.pick(8, 10))), format!("sequences of sequences made in way {way}: all with up to {} inner sequences and items", ctx.pick(8, 10)));
        go(&with(&[13, way], lists(&[0, 1, 2, 3, 5, 7], ctx.pick(5, 6))), format!("sequences of maps made in way {way}: all lists of up to {} of six maps", ctx.pick(5, 6)));
    }
    go(&with(&[14], lists(&[0, 1, 2, 4, 5], ctx.pick(6, 8))), format!("pages of sequences: all histories of up to {} insertions", ctx.pick(6, 8)));
    let alpha: Vec<i64> = (0..3).flat_map(|k| [0, 1].into_iter().map(move |v| k * 4 + v)).chain((0..3).map(|k| 16 + k * 4)).chain((0..3).map(|k| 32 + k * 4)).collect();
    go(&with(&[8], lists(&alpha, ctx.pick(4, 6))), "maps of sequences: all histories".into());
    let mut alpha = vec![];
    for k in 0..2 {
        for i in 0..2 {
            for v in 0..2 {
                alpha.push(k * 16 + i * 4 + v);
                alpha.push(64 + k * 16 + i * 4 + v);
            }
            alpha.push(128 + k * 16 + i * 4);
        }
        alpha.push(192 + k * 16);
    }
    go(&with(&[9], lists(&alpha, ctx.pick(4, 5))), "maps of maps: all histories".into());
    for s in [1, 2, 3, 7] {
        go(&with(&[10, s], lists(&[0, 1, 4, 5], ctx.pick(7, 9))), format!("paged with pages of {s}: all histories of inserting two items for two keys"));
        go(&with(&[10, s], lists(&[0, 4, 8], ctx.pick(8, 10))), format!("paged with pages of {s}: all histories of inserting one item for three keys"));
    }
    let mut items = vec![];
    let (np, nc) = (PATHS.len() as i64, 10);
    let leaf: Vec<i64> = (0..np).flat_map(|p| (0..nc).map(move |c| p * 16 + c)).collect();
    for a in &leaf {
        items.push(vec![11, *a]);
        for c in 0..=nc {
            items.push(vec![11, *a, -16 - c]);
        }
        for b in &leaf {
            items.push(vec![11, *a, *b]);
            for c in [0, 1, 5, 9] {
                items.push(vec![11, *a, *b, -32 - 16 - c]);
            }
            if a % 16 < ctx.pick(2, 4) && b % 16 < ctx.pick(3, 6) {
                for c in &leaf {
                    if c % 16 < ctx.pick(3, 8) {
                        items.push(vec![11, *a, *b, *c]);
                    }
                }
            }
        }
    }
    go(&items, "groups: all of up to two leaves (and of three over fewer contents) at 12 paths with 10 contents each, and changes of a leaf".into());

}

fn perms(n: i64) -> Vec<Vec<i64>> {
    let mut out: Vec<Vec<i64>> = vec![vec![]];
    for k in 0..n {
        out = out.into_iter().flat_map(|p| (0..=p.len()).map(move |i| { let mut q = p.clone(); q.insert(i, k); q })).collect();
    }
    out
}
