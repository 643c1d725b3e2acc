//! Groups: every layout, selection and change of a bounded space, against directories of leaves.
use crate::engine::{guarded, Ctx, Fp, Obs};
use crate::hist::ck;
use crate::spec::{self, Look, T};
use certified_vars::{AsHashTree, Group, GroupBuilder, Hash, HashTree, Map, Seq};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};

/// What a leaf of a group holds.
#[derive(Debug)]
pub enum In {
    Bytes(Vec<u8>),
    Map(Map<u8, u8>),
    Seq(Seq<u8>),
}
impl AsHashTree for In {
    fn root_hash(&self) -> Hash {
        match self {
            In::Bytes(b) => b.root_hash(),
            In::Map(m) => m.root_hash(),
            In::Seq(s) => s.root_hash(),
        }
    }
    fn as_hash_tree(&self) -> HashTree<'_> {
        match self {
            In::Bytes(b) => b.as_hash_tree(),
            In::Map(m) => m.as_hash_tree(),
            In::Seq(s) => s.as_hash_tree(),
        }
    }
}
/// Leaves of a group are told apart by type.
pub struct Leaf<const N: usize>(pub In);
impl<const N: usize> AsHashTree for Leaf<N> {
    fn root_hash(&self) -> Hash {
        self.0.root_hash()
    }
    fn as_hash_tree(&self) -> HashTree<'_> {
        self.0.as_hash_tree()
    }
}
/// A group inside a group.
pub struct Inner(Group);
impl AsHashTree for Inner {
    fn root_hash(&self) -> Hash {
        self.0.root_hash()
    }
    fn as_hash_tree(&self) -> HashTree<'_> {
        self.0.as_hash_tree()
    }
}

macro_rules! by_n {
    ($n:expr, $N:ident => $e:expr) => {
        match $n {
            0 => { const $N: usize = 0; $e }
            1 => { const $N: usize = 1; $e }
            2 => { const $N: usize = 2; $e }
            3 => { const $N: usize = 3; $e }
            4 => { const $N: usize = 4; $e }
            5 => { const $N: usize = 5; $e }
            6 => { const $N: usize = 6; $e }
            7 => { const $N: usize = 7; $e }
            8 => { const $N: usize = 8; $e }
            9 => { const $N: usize = 9; $e }
            10 => { const $N: usize = 10; $e }
            11 => { const $N: usize = 11; $e }
            12 => { const $N: usize = 12; $e }
            13 => { const $N: usize = 13; $e }
            14 => { const $N: usize = 14; $e }
            15 => { const $N: usize = 15; $e }
            16 => { const $N: usize = 16; $e }
            17 => { const $N: usize = 17; $e }
            18 => { const $N: usize = 18; $e }
            19 => { const $N: usize = 19; $e }
            20 => { const $N: usize = 20; $e }
            21 => { const $N: usize = 21; $e }
            22 => { const $N: usize = 22; $e }
            23 => { const $N: usize = 23; $e }
            24 => { const $N: usize = 24; $e }
            25 => { const $N: usize = 25; $e }
            26 => { const $N: usize = 26; $e }
            27 => { const $N: usize = 27; $e }
            28 => { const $N: usize = 28; $e }
            29 => { const $N: usize = 29; $e }
            30 => { const $N: usize = 30; $e }
            31 => { const $N: usize = 31; $e }
            32 => { const $N: usize = 32; $e }
            33 => { const $N: usize = 33; $e }
            34 => { const $N: usize = 34; $e }
            35 => { const $N: usize = 35; $e }
            36 => { const $N: usize = 36; $e }
            37 => { const $N: usize = 37; $e }
            38 => { const $N: usize = 38; $e }
            39 => { const $N: usize = 39; $e }
            40 => { const $N: usize = 40; $e }
            41 => { const $N: usize = 41; $e }
            42 => { const $N: usize = 42; $e }
            43 => { const $N: usize = 43; $e }
            44 => { const $N: usize = 44; $e }
            45 => { const $N: usize = 45; $e }
            46 => { const $N: usize = 46; $e }
            47 => { const $N: usize = 47; $e }
            48 => { const $N: usize = 48; $e }
            49 => { const $N: usize = 49; $e }
            50 => { const $N: usize = 50; $e }
            51 => { const $N: usize = 51; $e }
            52 => { const $N: usize = 52; $e }
            53 => { const $N: usize = 53; $e }
            54 => { const $N: usize = 54; $e }
            55 => { const $N: usize = 55; $e }
            56 => { const $N: usize = 56; $e }
            57 => { const $N: usize = 57; $e }
            58 => { const $N: usize = 58; $e }
            59 => { const $N: usize = 59; $e }
            60 => { const $N: usize = 60; $e }
            61 => { const $N: usize = 61; $e }
            62 => { const $N: usize = 62; $e }
            63 => { const $N: usize = 63; $e }
            64 => { const $N: usize = 64; $e }
            65 => { const $N: usize = 65; $e }
            66 => { const $N: usize = 66; $e }
            67 => { const $N: usize = 67; $e }
            68 => { const $N: usize = 68; $e }
            69 => { const $N: usize = 69; $e }
            70 => { const $N: usize = 70; $e }
            71 => { const $N: usize = 71; $e }
            72 => { const $N: usize = 72; $e }
            73 => { const $N: usize = 73; $e }
            74 => { const $N: usize = 74; $e }
            75 => { const $N: usize = 75; $e }
            76 => { const $N: usize = 76; $e }
            77 => { const $N: usize = 77; $e }
            78 => { const $N: usize = 78; $e }
            79 => { const $N: usize = 79; $e }
            n => panic!("leaf {n}"),
        }
    };
}
pub const MAXL: usize = 20;
/// Leaves of the biggest groups.
pub const HUGE: usize = 80;

type R<'a> = certified_vars::collections::group::Ray<'a>;
/// What can be done with one more type of leaf.
pub struct More {
    add: fn(GroupBuilder, &[String], In) -> GroupBuilder,
    get: fn(&Group) -> &In,
    get_mut: fn(&mut Group) -> &mut In,
    full: for<'a> fn(R<'a>) -> R<'a>,
}
const fn more<const N: usize>() -> More {
    More {
        add: |b, p, x| b.insert(p.to_vec(), Leaf::<N>(x)),
        get: |g| &g.get::<Leaf<N>>().0,
        get_mut: |g| &mut g.get_mut::<Leaf<N>>().0,
        full: |r| r.full::<Leaf<N>>(),
    }
}
macro_rules! mores {
    ($($a:literal)*) => { [$(mores!(@ $a 0 1 2 3 4 5 6 7 8 9)),*] };
    (@ $a:literal $($b:literal)*) => { [$(more::<{ HUGE + 10 * $a + $b }>()),*] };
}
/// Types of leaves from the 81st on, for very wide directories.
pub static MORES: [[More; 10]; 23] = mores!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22);
fn extra(n: usize) -> &'static More {
    &MORES[(n - HUGE) / 10][n % 10]
}

fn add(b: GroupBuilder, n: usize, path: &[String], how: i64, x: In) -> GroupBuilder {
    if n >= HUGE {
        return (extra(n).add)(b, path, x);
    }
    by_n!(n, N => match how {
        0 => b.insert(path.to_vec(), Leaf::<N>(x)),
        1 => b.insert(path.iter().map(|s| s.as_str()), Leaf::<N>(x)),
        _ => b.insert(path.iter().cloned().collect::<std::collections::VecDeque<_>>(), Leaf::<N>(x)),
    })
}
pub fn get(g: &Group, n: usize) -> &In {
    if n >= HUGE {
        return (extra(n).get)(g);
    }
    by_n!(n, N => &g.get::<Leaf<N>>().0)
}
pub fn get_mut(g: &mut Group, n: usize) -> &mut In {
    if n >= HUGE {
        return (extra(n).get_mut)(g);
    }
    by_n!(n, N => &mut g.get_mut::<Leaf<N>>().0)
}

/// The tree a leaf must show in full, written independently of the leaf.
fn full_tree(x: &In) -> T {
    match x {
        In::Bytes(b) => T::V(b.clone()),
        In::Seq(s) => T::P(crate::seq::chain(s.as_vec())),
        // The shape of a map's tree is the subject of C02, so it is taken from the map.
        In::Map(m) => spec::of(&m.as_hash_tree()),
    }
}

/// Partial selections of a leaf; `None` when there is no such selection for the kind of leaf.
fn partial_tree(x: &In, how: i64) -> Option<HashTree<'_>> {
    Some(match (x, how) {
        (x, 0) => HashTree::Pruned(x.root_hash()),
        (In::Map(m), 1) => m.witness(&3),
        (In::Map(m), 2) => m.witness(&4),
        (In::Map(m), 3) => m.witness_keys(),
        (In::Map(m), 4) => m.witness_key_range(&3, &5),
        _ => return None,
    })
}
const HOWS: i64 = 5;

fn initial(n: usize, kind: i64) -> In {
    match kind {
        0 => In::Bytes(vec![n as u8; n % 3]),
        1 => In::Map([(1, n as u8), (3, 30), (5, 50)].into_iter().collect()),
        2 => In::Seq(vec![n as u8, 1].into()),
        3 => In::Map(Map::new()),
        4 => In::Seq(Seq::new()),
        // The same contents in every leaf: only paths tell them apart.
        5 => In::Bytes(vec![7]),
        _ => In::Map([(3, n as u8)].into_iter().collect()),
    }
}

pub const PATHS: [&[&str]; 12] = [
    &["a"],
    &["b"],
    &[""],
    &["a", "a"],
    &["a", "b"],
    &["b", "a"],
    &["", "a"],
    &["a\0"],
    &["a", "a", "a"],
    &["a", "b", "c"],
    &["ab"],
    &["b", "", "\u{e9}"],
];

fn strs(p: &[&str]) -> Vec<String> {
    p.iter().map(|s| s.to_string()).collect()
}

fn conflict(a: &[String], b: &[String]) -> bool {
    let n = a.len().min(b.len());
    a[..n] == b[..n]
}

/// Follows a path the way a client does.
fn walk<'a>(t: &'a T, path: &[String]) -> Result<&'a T, String> {
    let mut t = t;
    for (i, s) in path.iter().enumerate() {
        match spec::lookup(t, s.as_bytes()) {
            Look::Found(x) => t = x,
            l => return Err(format!("path {path:?}: element {i} is {l:?}")),
        }
    }
    Ok(t)
}

fn ceil_log2(n: usize) -> usize {
    (usize::BITS - (n.max(1) - 1).leading_zeros()) as usize
}

/// What a group has to be: leaves by path.
struct Model {
    leaf: BTreeMap<usize, (Vec<String>, In)>,
}

impl Model {
    fn names(&self, prefix: &[String], only: &BTreeSet<usize>) -> BTreeSet<Vec<u8>> {
        self.leaf
            .iter()
            .filter(|(n, (p, _))| only.contains(n) && p.len() > prefix.len() && p[..prefix.len()] == *prefix)
            .map(|(_, (p, _))| p[prefix.len()].as_bytes().to_vec())
            .collect()
    }
    fn at(&self, path: &[String]) -> Option<usize> {
        self.leaf.iter().find(|(_, (p, _))| p == path).map(|(n, _)| *n)
    }
    /// `t` shows at `prefix` exactly the selected leaves, each as `show` says.
    fn shows(&self, t: &T, prefix: &[String], show: &BTreeMap<usize, Vec<T>>) -> Result<(), String> {
        if let Some(n) = self.at(prefix) {
            return match show.get(&n) {
                Some(w) => ck(w.contains(t), || format!("at {prefix:?}: {t:?}, expected one of {w:?}")),
                None => ck(matches!(t, T::P(_)), || format!("leaf {prefix:?} is shown though not selected: {t:?}")),
            };
        }
        let sel: BTreeSet<usize> = show.keys().copied().collect();
        let want = self.names(prefix, &sel);
        let all: BTreeSet<usize> = self.leaf.keys().copied().collect();
        let entries = self.names(prefix, &all).len();
        if want.is_empty() {
            return ck(matches!(t, T::P(_)), || format!("{prefix:?} is shown though nothing in it is selected: {t:?}"));
        }
        let got: BTreeSet<Vec<u8>> = spec::labels(t).iter().map(|x| x.to_vec()).collect();
        ck(got == want, || format!("directory {prefix:?} shows {got:?}, expected {want:?}"))?;
        ck(spec::labels(t).windows(2).all(|w| w[0] < w[1]), || format!("labels of directory {prefix:?} are not ascending"))?;
        ck(spec::depth(t) <= ceil_log2(entries), || format!("directory {prefix:?} of {entries} entries has depth {}", spec::depth(t)))?;
        let mut pruned = 0;
        for x in spec::flat(t) {
            match x {
                T::L(lb, s) => {
                    let mut p = prefix.to_vec();
                    p.push(String::from_utf8(lb.clone()).map_err(|e| e.to_string())?);
                    self.shows(s, &p, show)?;
                }
                T::P(_) => pruned += 1,
                x => return Err(format!("directory {prefix:?} contains {x:?}")),
            }
        }
        ck(pruned == 0 || entries > want.len(), || format!("directory {prefix:?} hides something though all entries are selected"))
    }
    fn check(&self, t: &T, root: &Hash, show: &BTreeMap<usize, Vec<T>>, what: &str) -> Result<(), String> {
        let e = |m: String| format!("{what}: {m}");
        ck(spec::digest(t) == *root, || e("the digest is not the root hash".into()))?;
        ck(spec::well_formed(t), || e("labels are not ascending".into()))?;
        self.shows(t, &[], show).map_err(e)?;
        for (n, w) in show {
            let x = walk(t, &self.leaf[n].0).map_err(e)?;
            ck(w.contains(x), || e(format!("leaf {n}: {x:?}")))?;
        }
        Ok(())
    }
    fn all(&self) -> BTreeMap<usize, Vec<T>> {
        self.leaf.iter().map(|(n, (_, x))| (*n, vec![full_tree(x)])).collect()
    }
    /// The whole group: full tree, empty selection, every leaf through its type.
    fn whole(&self, g: &Group) -> Result<(), String> {
        let root = g.root_hash();
        self.check(&spec::of(&g.as_hash_tree()), &root, &self.all(), "full tree")?;
        let none = spec::of(&g.witness().build());
        ck(none == T::P(root), || format!("the witness without a selection is {none:?}"))?;
        for (n, (_, x)) in &self.leaf {
            let (a, b) = (full_tree(get(g, *n)), full_tree(x));
            ck(a == b, || format!("get of leaf {n} gives {a:?}, expected {b:?}"))?;
        }
        Ok(())
    }
}

pub fn build(order: &[usize], paths: &[Vec<String>], kinds: &[i64], how: i64) -> Result<Group, String> {
    guarded(|| {
        let mut b = if how == 0 { GroupBuilder::new() } else { GroupBuilder::default() };
        for n in order {
            b = add(b, *n, &paths[*n], how, initial(*n, kinds[*n]));
        }
        b.build()
    })
}

fn model(paths: &[Vec<String>], kinds: &[i64]) -> Model {
    Model { leaf: paths.iter().enumerate().map(|(n, p)| (n, (p.clone(), initial(n, kinds[n])))).collect() }
}

fn orders(n: usize) -> Vec<Vec<usize>> {
    fn go(left: Vec<usize>, cur: Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.is_empty() {
            out.push(cur);
            return;
        }
        for i in 0..left.len() {
            let mut l = left.clone();
            let x = l.remove(i);
            let mut c = cur.clone();
            c.push(x);
            go(l, c, out);
        }
    }
    let mut o = vec![];
    go((0..n).collect(), vec![], &mut o);
    o
}

/// Parameters: kinds in base 7, then path numbers, leaf `i` being the `i`-th.
pub fn layout(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let paths: Vec<Vec<String>> = p[1..].iter().map(|i| strs(PATHS[*i as usize])).collect();
    let n = paths.len();
    let kinds: Vec<i64> = (0..n).map(|i| p[0] / 7i64.pow(i as u32) % 7).collect();
    obs.fp = p.iter().fold(7, |a, x| a * 31 + *x as u64);
    layout_of(paths, kinds, obs)
}

fn layout_of(paths: Vec<Vec<String>>, kinds: Vec<i64>, obs: &mut Obs) -> Result<(), String> {
    let n = paths.len();
    let bad = (0..n).any(|i| (0..i).any(|j| conflict(&paths[i], &paths[j])));
    obs.text = format!("{paths:?} conflict={bad}");
    obs.trivial = n == 0;
    let m = model(&paths, &kinds);
    let mut root = None;
    for (i, o) in orders(n).iter().enumerate() {
        obs.steps += n as u64;
        let g = build(o, &paths, &kinds, i as i64 % 3);
        if bad || n == 0 {
            ck(g.is_err() || n == 0, || format!("inserting {paths:?} in order {o:?} is not rejected"))?;
            continue;
        }
        let g = g.map_err(|e| format!("{paths:?} in order {o:?}: panicked: {e}"))?;
        m.whole(&g).map_err(|e| format!("order {o:?}: {e}"))?;
        let r = g.root_hash();
        ck(*root.get_or_insert(r) == r, || format!("the root hash depends on the order of insertion: {o:?}"))?;
        // A second leaf of a type that is there already.
        if i == 0 {
            for x in 0..n {
                for path in [&paths[x], &strs(&["z"]), &paths[(x + 1) % n]] {
                    let r = guarded(|| {
                        let mut b = GroupBuilder::new();
                        for n in o {
                            b = add(b, *n, &paths[*n], 0, initial(*n, kinds[*n]));
                        }
                        add(b, x, path, 0, initial(x, 0)).build()
                    });
                    ck(r.is_err(), || format!("a second leaf of type {x} at {path:?} is not rejected"))?;
                }
            }
        }
    }
    Ok(())
}

/// Selects leaf `n`: `how` 0 in full, otherwise partial `how - 1`. Returns what has to be shown.
fn select<'a>(ray: certified_vars::collections::group::Ray<'a>, m: &Model, n: usize, how: i64) -> Result<(certified_vars::collections::group::Ray<'a>, T), String> {
    let x = &m.leaf[&n].1;
    let calls = Cell::new(0);
    let (r, t) = match how {
        0 if n >= HUGE => ((extra(n).full)(ray), full_tree(x)),
        0 => (by_n!(n, N => ray.full::<Leaf<N>>()), full_tree(x)),
        h => {
            let t = spec::of(&partial_tree(x, h - 1).ok_or("no such selection")?);
            let r = by_n!(n, N => ray.partial(|l: &Leaf<N>| {
                calls.set(calls.get() + 1);
                partial_tree(&l.0, h - 1).expect("kind of leaf")
            }));
            ck(calls.get() == 1, || format!("the selector ran {} times", calls.get()))?;
            (r, t)
        }
    };
    Ok((r, t))
}

/// Parameters: kinds in base 7, number of leaves, path numbers, then a selection list of
/// leaf * 8 + how.
pub fn selection(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let n = p[1] as usize;
    let paths: Vec<Vec<String>> = p[2..2 + n].iter().map(|i| strs(PATHS[*i as usize])).collect();
    let kinds: Vec<i64> = (0..n).map(|i| p[0] / 7i64.pow(i as u32) % 7).collect();
    run_selection(paths, kinds, &p[2 + n..], obs)
}

fn run_selection(paths: Vec<Vec<String>>, kinds: Vec<i64>, sel: &[i64], obs: &mut Obs) -> Result<(), String> {
    let n = paths.len();
    let m = model(&paths, &kinds);
    let g = build(&(0..n).collect::<Vec<_>>(), &paths, &kinds, 0)?;
    let mut ray = g.witness();
    let mut show: BTreeMap<usize, Vec<T>> = BTreeMap::new();
    for s in sel {
        let (l, h) = ((s / 8) as usize, s % 8);
        if h > 0 && partial_tree(&m.leaf[&l].1, h - 1).is_none() {
            obs.trivial = true;
            return Ok(());
        }
        let (r, t) = select(ray, &m, l, h)?;
        ray = r;
        // Of a leaf selected twice the last selection counts.
        show.insert(l, vec![t]);
        obs.steps += 1;
    }
    obs.trivial = sel.is_empty();
    let mut f = Fp::new();
    f.add(format!("{paths:?}{sel:?}{kinds:?}").as_bytes());
    obs.fp = f.0;
    obs.text = format!("leaves {paths:?}");
    let t = spec::of(&ray.build());
    let root = g.root_hash();
    if sel.is_empty() {
        return m.whole(&g);
    }
    m.check(&t, &root, &show, "witness")
}

/// Parameters: number of leaves, directory style, kinds (one for all), selection list.
pub fn wide(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let n = p[0] as usize;
    let (paths, kinds) = wide_paths(n, p[1], p[2]);
    run_selection(paths, kinds, &p[3..], obs)
}

pub fn wide_paths(n: usize, style: i64, kind: i64) -> (Vec<Vec<String>>, Vec<i64>) {
    let (q, bits) = if n <= MAXL { (23, 5) } else { (101, 7) };
    let paths = (0..n)
        .map(|i| match style {
            0 => vec![format!("{i:02}")],
            // In no particular order.
            1 => vec![format!("{}", (i * 7) % q)],
            2 => vec!["d".into(), format!("{}", (i * 11) % q)],
            3 => vec![format!("{}", i % 4), "x".repeat(i)],
            // One inside the other.
            4 => (0..=i).map(|j| if j == i { "x".to_string() } else { "d".to_string() }).collect(),
            5 => (0..bits).map(|b| format!("{}", i >> b & 1)).collect(),
            // Names that are easily taken for one another.
            _ => vec![NAMES[i * 5 % NAMES.len()].to_string(), format!("{}", i / NAMES.len())],
        })
        .collect();
    (paths, vec![kind; n])
}

/// Parameters: number of leaves, directory style: layouts with many leaves, in several orders.
pub fn widelayout(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let n = p[0] as usize;
    let (paths, kinds) = wide_paths(n, p[1], p[2]);
    obs.fp = (p[0] * 16 + p[1] * 400 + p[2]) as u64;
    let m = model(&paths, &kinds);
    let mut root = None;
    let mut os: Vec<Vec<usize>> = vec![(0..n).collect(), (0..n).rev().collect()];
    for k in [1, 3, 7, 9, 11, 13, 17, 19] {
        for s in 0..n {
            let o: Vec<usize> = (0..n).map(|i| (s + i * k) % n).collect();
            if o.iter().collect::<BTreeSet<_>>().len() == n {
                os.push(o);
            }
        }
    }
    if n <= 5 {
        os = orders(n);
    }
    for o in os {
        let g = build(&o, &paths, &kinds, 1)?;
        obs.steps += n as u64;
        let r = g.root_hash();
        if root.is_none() {
            m.whole(&g)?;
        }
        ck(*root.get_or_insert(r) == r, || format!("the root hash depends on the order of insertion: {o:?}"))?;
        // Any one more leaf that conflicts is refused, at any point.
        if n < MAXL {
            for x in [&paths[0], &paths[n - 1], &paths[n / 2]] {
                let mut ext = x.clone();
                ext.push("e".into());
                for bad in [x.clone(), ext] {
                    let mut ps = paths.clone();
                    ps.push(bad.clone());
                    let mut ks = kinds.clone();
                    ks.push(5);
                    let mut o2 = o.clone();
                    o2.push(n);
                    ck(build(&o2, &ps, &ks, 0).is_err(), || format!("{bad:?} is not rejected"))?;
                    o2.rotate_right(1);
                    ck(build(&o2, &ps, &ks, 0).is_err(), || format!("{bad:?} added first is not rejected"))?;
                }
            }
        }
    }
    Ok(())
}

/// Paths of big, deep and long-named groups.
fn big_paths(n: usize, style: i64) -> Vec<Vec<String>> {
    (0..n)
        .map(|i| match style {
            0 => vec![format!("{:03}", (i * 37) % 101)],
            // Each leaf one level further down.
            1 => (0..=i).map(|j| if j == i { "x".to_string() } else { "d".to_string() }).collect(),
            // All leaves at the end of one long path.
            2 => (0..70).map(|j| format!("{j}")).chain([format!("{i}")]).collect(),
            3 => (0..7).map(|b| format!("{}", i >> b & 1)).collect(),
            4 => vec![format!("{}", i % 9), format!("{}", i / 9), "y".repeat(i)],
            // Names that only differ after a long common part.
            5 => vec!["n".repeat(3 * i), format!("{}{i:02}", "c".repeat(260))],
            // Depth that varies from leaf to leaf.
            _ => (0..i % 20 * 2).map(|j| format!("{j}")).chain([format!("l{i}")]).collect(),
        })
        .collect()
}

/// Paths of directories with hundreds of entries.
fn vast_paths(n: usize, style: i64) -> Vec<Vec<String>> {
    (0..n)
        .map(|i| match style {
            0 => vec![format!("{:03}", (i * 37) % 311)],
            // Numbers that are not in the order of their digits.
            1 => vec!["d".to_string(), format!("{i}")],
            2 => vec!["d".repeat(i)],
            // Two wide directories, one inside the other.
            _ => [vec!["m".to_string(); i % 2], vec![format!("{:x}", i * 5 % 311)]].concat(),
        })
        .collect()
}

/// Parameters: number of leaves, style, first leaf, how many: all orders of building, then a
/// selection and a change.
pub fn vast(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let n = p[0] as usize;
    let paths = vast_paths(n, p[1]);
    let kinds = vec![0; n];
    let mut m = model(&paths, &kinds);
    let mut root = None;
    let mut g = None;
    for o in [(0..n).rev().collect::<Vec<_>>(), (0..n).map(|i| (i + n / 2) % n).collect(), (0..n).collect()] {
        let x = build(&o, &paths, &kinds, 0)?;
        let r = x.root_hash();
        ck(*root.get_or_insert(r) == r, || "the root hash depends on the order of insertion".into())?;
        g = Some(x);
        obs.steps += n as u64;
    }
    let mut g = g.unwrap();
    m.whole(&g)?;
    let sel: Vec<i64> = (0..p[3]).map(|i| (p[2] + i) % n as i64 * 8).collect();
    run_selection(paths, kinds, &sel, obs)?;
    // A change of the selected leaves.
    for s in &sel {
        let l = (*s / 8) as usize;
        *get_mut(&mut g, l) = In::Bytes(vec![0xaa, l as u8]);
        m.leaf.get_mut(&l).unwrap().1 = In::Bytes(vec![0xaa, l as u8]);
    }
    m.whole(&g)?;
    ck(sel.is_empty() || Some(g.root_hash()) != root, || "the root hash does not follow a change".into())?;
    obs.fp ^= (p[0] * 4 + p[1]) as u64;
    obs.text = format!("{n} leaves, style {}, {} selected from {}", p[1], p[3], p[2]);
    Ok(())
}
fn vasts(ctx: &Ctx) {
    let si = ctx.scen("gvast");
    let mut v = vec![];
    for n in ctx.pick(vec![100, 127, 128, 129, 200, 255, 256, 257, 258, 310], (81..=310).collect::<Vec<i64>>()) {
        for style in 0..4 {
            for (x, k) in [(0, 0), (0, 1), (n / 2, 1), (n - 1, 1), (n - 1, 2), (n / 3, 40), (0, n)] {
                v.push(vec![n, style, x, k]);
            }
        }
    }
    ctx.par_items(&v, |p| {
        ctx.run(si, p);
    });
    ctx.note(format!("{} selections and changes in directories of up to 310 entries, three orders of building", v.len()));
}

/// Parameters: number of leaves, style, kind, which selection (0 nothing, 1 one leaf, 2 all but
/// one, 3 two neighbours, 4 a run of leaves, 5 all), first leaf, length of the run.
pub fn big(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let n = p[0] as usize;
    let paths = big_paths(n, p[1]);
    let x = p[4];
    let all = 0..n as i64;
    let sel: Vec<i64> = match p[3] {
        0 => vec![],
        1 => vec![x],
        2 => all.filter(|i| *i != x).collect(),
        3 => vec![x, (x + 1) % n as i64],
        4 => all.map(|i| (i + x) % n as i64).take(p[5] as usize).collect(),
        _ => all.rev().collect(),
    };
    run_selection(paths, vec![p[2]; n], &sel.iter().map(|i| i * 8 + (p[2] == 1 && i % 3 == 1) as i64 * (1 + i % 2)).collect::<Vec<_>>(), obs)
}

/// Parameters: number of leaves, style, kind: big groups built in several orders, and leaves that conflict.
pub fn biglayout(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let n = p[0] as usize;
    let paths = big_paths(n, p[1]);
    let kinds = vec![p[2]; n];
    let m = model(&paths, &kinds);
    obs.fp = (p[0] * 16 + p[1] * 4000 + p[2]) as u64;
    let mut root = None;
    for (i, o) in [(0..n).collect::<Vec<_>>(), (0..n).rev().collect(), (0..n).map(|i| (i + n / 2) % n).collect()].iter().enumerate() {
        let g = build(o, &paths, &kinds, i as i64)?;
        obs.steps += n as u64;
        if root.is_none() {
            m.whole(&g)?;
        }
        let r = g.root_hash();
        ck(*root.get_or_insert(r) == r, || "the root hash depends on the order of insertion".into())?;
    }
    if n < HUGE {
        for x in [0, n / 2, n - 1] {
            let mut cut = paths[x].clone();
            cut.pop();
            let mut ext = paths[x].clone();
            ext.push("e".into());
            for bad in [paths[x].clone(), ext, cut] {
                let mut ps = paths.clone();
                ps.push(bad.clone());
                let mut ks = kinds.clone();
                ks.push(5);
                let mut o: Vec<usize> = (0..=n).collect();
                for _ in 0..2 {
                    ck(build(&o, &ps, &ks, 0).is_err(), || format!("{bad:?} is not rejected"))?;
                    o.rotate_right(1);
                }
            }
        }
    }
    Ok(())
}

/// Names whose order or equality depends on how they are compared: as bytes, ignoring case,
/// normalised, trimmed, as numbers, as UTF-16, or split at separators.
pub const NAMES: [&str; 36] = [
    "", "a", "b", "A", "B", "aB", "Ab", "ab", "AB", "z", "Z", "_", "-", "~", "0", "1", "2", "02", "10", "9", " ", " a", "a ", "a\n", "a/b", "a.b", "/", "\0", "a\0",
    "\u{7f}", "é", "e\u{301}", "É", "\u{ff}", "\u{ffff}", "\u{10000}",
];

/// Parameters: style, selection, names: leaves whose paths use unusual names.
pub fn name(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let nm: Vec<String> = p[2..].iter().map(|i| NAMES[*i as usize].to_string()).collect();
    let x = || "x".to_string();
    let paths: Vec<Vec<String>> = nm
        .iter()
        .enumerate()
        .map(|(i, a)| match p[0] {
            0 => vec![a.clone()],
            1 => vec![x(), a.clone()],
            2 => vec![a.clone(), x()],
            3 => vec![a.clone(), nm[(i + 1) % nm.len()].clone()],
            // All in the same directories.
            4 => vec![nm[0].clone(), a.clone()],
            _ => vec![nm[i / 2 * 2].clone(), x(), a.clone()],
        })
        .collect();
    let kinds = (0..nm.len()).map(|i| [5, 1, 2, 0][i % 4]).collect();
    obs.fp = p.iter().fold(7, |a, x| a * 41 + (*x + 1) as u64);
    if p[1] < 0 {
        layout_of(paths, kinds, obs)
    } else {
        run_selection(paths, kinds, &(0..nm.len() as i64).filter(|i| p[1] >> i & 1 == 1).map(|i| i * 8).collect::<Vec<_>>(), obs)
    }
}

/// Lists of names: all pairs, all triples, and some of four.
fn name_lists(ctx: &Ctx) -> Vec<Vec<i64>> {
    let n = NAMES.len() as i64;
    let mut v = vec![];
    for a in 0..n {
        for b in 0..n {
            if a != b {
                v.push(vec![a, b]);
            }
            for c in 0..b {
                if b < a {
                    v.push(vec![a, b, c]);
                }
                for d in (0..c).filter(|_| b < a && (!ctx.quick() || (a + b + c) % 7 == 0)) {
                    v.push(vec![a, b, c, d]);
                }
            }
        }
    }
    v
}

/// Path elements of one length. Parameters: length, position of the long element, selection.
pub fn long(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let l = "z".repeat(p[0] as usize);
    let e = |s: &str| format!("{l}{s}");
    let paths: Vec<Vec<String>> = match p[1] {
        0 => vec![vec![e("a")], vec![e("b")], vec![e("")]],
        1 => vec![vec!["a".into(), e("a")], vec!["a".into(), e("b")], vec!["b".into()]],
        2 => vec![vec![e("a"), "x".into()], vec![e("b"), "x".into()], vec![e("b"), "y".into()]],
        _ => vec![vec![e("a"), e("a")], vec![e("a"), e("b")], vec![e("b"), e("a")]],
    };
    run_selection(paths, vec![5, 1, 2], &(0..3).filter(|i| p[2] >> i & 1 == 1).map(|i| i * 8).collect::<Vec<_>>(), obs)
}

fn lengths(ctx: &Ctx) -> Vec<i64> {
    let mut v: Vec<i64> = (0..=300).collect();
    v.extend([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537]);
    v.extend(ctx.pick(vec![], (301..=1100).collect::<Vec<i64>>()));
    v
}

fn big_sizes(ctx: &Ctx) -> Vec<i64> {
    ctx.pick(vec![21, 24, 31, 32, 33, 48, 49, 63, 64, 65, 79, 80], (21..=80).collect())
}

/// A layout used for changes: leaf -> path, kind.
pub const LAYOUTS: [&[(&[&str], i64)]; 6] = [
    &[(&["a"], 1)],
    &[(&["a"], 0), (&["b"], 2)],
    &[(&["a", "x"], 1), (&["a", "y"], 0), (&["b"], 2)],
    &[(&["b", "x"], 3), (&["a"], 4), (&["b", "y", "z"], 5), (&["c"], 5)],
    &[(&["a", "b", "c"], 1), (&["a", "b", "d"], 1), (&["a", "c"], 6), (&["a", "a"], 2), (&["b"], 0)],
    &[(&["x"], 5), (&["y"], 5), (&["z"], 5)],
];

/// Parameters: layout, operations (leaf * 16 + change, or reads).
pub fn mutate(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let l = LAYOUTS[p[0] as usize];
    let paths: Vec<_> = l.iter().map(|x| strs(x.0)).collect();
    let kinds: Vec<_> = l.iter().map(|x| x.1).collect();
    let n = l.len();
    let mut m = model(&paths, &kinds);
    let mut g = build(&(0..n).collect::<Vec<_>>(), &paths, &kinds, 0)?;
    for o in &p[1..] {
        let (x, c) = ((o / 16) as usize, o % 16);
        if x >= n {
            obs.trivial = true;
            return Ok(());
        }
        obs.steps += 1;
        let a = get_mut(&mut g, x);
        let b = &mut m.leaf.get_mut(&x).unwrap().1;
        for y in [a, b] {
            match (c, y) {
                (0, y) => *y = In::Bytes(vec![9, 9]),
                (1, y) => *y = In::Map([(3, 1), (4, 2)].into_iter().collect()),
                (2, In::Map(m)) => {
                    m.insert(7, 7);
                }
                (2, In::Seq(s)) => s.append(8),
                (2, In::Bytes(b)) => b.push(1),
                (3, In::Map(m)) => {
                    m.remove(&3);
                }
                (3, In::Seq(s)) => s.clear(),
                (3, In::Bytes(b)) => b.clear(),
                (4, In::Map(m)) => {
                    if let Some(v) = m.get_mut(&3) {
                        *v = v.wrapping_add(1);
                    }
                }
                (4, y) => *y = In::Seq(vec![1].into()),
                _ => (),
            }
        }
        if c == 5 {
            let _ = g.root_hash();
            let _ = g.witness().build();
        }
    }
    // A witness is the first read after the last change.
    let first = (p.len() + *p.last().unwrap() as usize) % n;
    for x in [first, (first + 1) % n] {
        for how in [1, 0, 2] {
            if how > 0 && partial_tree(&m.leaf[&x].1, how - 1).is_none() {
                continue;
            }
            let (r, s) = select(g.witness(), &m, x, how)?;
            let t = spec::of(&r.build());
            m.check(&t, &g.root_hash(), &[(x, vec![s])].into_iter().collect(), "witness as the first read")?;
        }
    }
    obs.trivial |= p.len() == 1;
    let mut f = Fp::new();
    f.add(format!("{:?}{:?}", p[0], m.all()).as_bytes());
    obs.fp = f.0;
    m.whole(&g)?;
    let root = g.root_hash();
    for mask in 0..1u32 << n {
        for how in [0, 1] {
            let mut ray = g.witness();
            let mut show: BTreeMap<usize, Vec<T>> = BTreeMap::new();
            for x in 0..n {
                if mask >> x & 1 == 1 {
                    let (r, t) = select(ray, &m, x, how)?;
                    ray = r;
                    show.insert(x, vec![t]);
                }
            }
            let t = spec::of(&ray.build());
            if mask == 0 {
                ck(t == T::P(root), || "empty selection".into())?;
            } else {
                m.check(&t, &root, &show, "witness after changes")?;
            }
        }
    }
    // Types that are not in the group are refused.
    let r0 = guarded(|| drop(full_tree(get(&g, 79))));
    let r1 = guarded(|| drop(full_tree(get_mut(&mut g, 79))));
    ck(r0.is_err() && r1.is_err(), || "a leaf of a type that is not in the group was found".into())?;
    for partial in [false, true] {
        let called = Cell::new(false);
        let r = guarded(|| {
            let ray = g.witness();
            let ray = if partial {
                ray.partial(|l: &Leaf<79>| {
                    called.set(true);
                    l.0.as_hash_tree()
                })
            } else {
                ray.full::<Leaf<79>>()
            };
            spec::of(&ray.build())
        });
        ck(!called.get(), || "a selector ran for a type that is not in the group".into())?;
        if let Ok(t) = r {
            ck(t == T::P(root), || "selecting a type that is not in the group shows something".into())?;
        }
    }
    Ok(())
}

/// Groups as leaves of groups. Parameters: outer layout, inner layout, selection.
pub fn nested(p: &[i64], obs: &mut Obs) -> Result<(), String> {
    let (o, i, sel) = (LAYOUTS[p[0] as usize], LAYOUTS[p[1] as usize], p[2]);
    let mk = |l: &[(&[&str], i64)]| {
        let paths: Vec<_> = l.iter().map(|x| strs(x.0)).collect();
        let kinds: Vec<_> = l.iter().map(|x| x.1).collect();
        (paths, kinds)
    };
    let (ip, ik) = mk(i);
    let (op, ok) = mk(o);
    let mut im = model(&ip, &ik);
    let om = model(&op, &ok);
    let inner = build(&(0..ip.len()).collect::<Vec<_>>(), &ip, &ik, 0)?;
    let mut b = GroupBuilder::new();
    for n in 0..op.len() {
        b = add(b, n, &op[n], 0, initial(n, ok[n]));
    }
    let at = strs(&["m", "n"]);
    let mut g = b.insert(at.clone(), Inner(inner)).build();
    for round in 0..2 {
        if round == 1 {
            *get_mut(&mut g.get_mut::<Inner>().0, 0) = In::Bytes(vec![3, 2, 1]);
            im.leaf.get_mut(&0).unwrap().1 = In::Bytes(vec![3, 2, 1]);
        }
        let root = g.root_hash();
        let inner_root = g.get::<Inner>().0.root_hash();
        im.whole(&g.get::<Inner>().0)?;
        let t = spec::of(&g.as_hash_tree());
        ck(spec::digest(&t) == root, || "nested full tree: digest".into())?;
        ck(*walk(&t, &at)? == spec::of(&g.get::<Inner>().0.as_hash_tree()), || "nested full tree".into())?;
        // Outer selection in the low bits, inner selection in the others.
        let (os, is) = (sel & 31, sel >> 5);
        let mut show = BTreeMap::new();
        let t = {
            let mut ray = g.witness();
            let mut oshow = BTreeMap::new();
            for n in 0..op.len() {
                if os >> n & 1 == 1 {
                    let (r, t) = select(ray, &om, n, 0)?;
                    ray = r;
                    oshow.insert(n, vec![t]);
                }
            }
            let err = Cell::new(None);
            let ray = ray.partial(|x: &Inner| {
                let mut ray = x.0.witness();
                for n in 0..ip.len() {
                    if is >> n & 1 == 1 {
                        match select(ray, &im, n, 0) {
                            Ok((r, t)) => {
                                ray = r;
                                show.insert(n, vec![t]);
                            }
                            Err(e) => {
                                err.set(Some(e));
                                ray = x.0.witness();
                            }
                        }
                    }
                }
                ray.build()
            });
            if let Some(e) = err.take() {
                return Err(e);
            }
            let t = spec::of(&ray.build());
            for (n, w) in &oshow {
                ck(w.contains(walk(&t, &op[*n])?), || format!("outer leaf {n}"))?;
            }
            t
        };
        obs.steps += 1;
        ck(spec::digest(&t) == root, || "nested witness: digest".into())?;
        let sub = walk(&t, &at)?;
        if show.is_empty() {
            ck(*sub == T::P(inner_root), || "nested witness: nothing selected inside".into())?;
        } else {
            im.check(sub, &inner_root, &show, "nested witness")?;
        }
        let want: usize = show.iter().map(|(n, w)| im.leaf[n].0.len() + spec::all_labels(&w[0]).len()).sum();
        ck(spec::all_labels(sub).len() <= want, || "nested witness: other labels".into())?;
    }
    obs.fp = (p[0] * 8 + p[1]) as u64 * 4096 + sel as u64;
    Ok(())
}

fn valid_layouts(n: usize) -> (Vec<Vec<i64>>, Vec<Vec<i64>>) {
    let np = PATHS.len() as i64;
    let (mut good, mut bad) = (vec![], vec![]);
    for c in 0..np.pow(n as u32) {
        let v: Vec<i64> = (0..n).map(|i| c / np.pow(i as u32) % np).collect();
        let ps: Vec<_> = v.iter().map(|i| strs(PATHS[*i as usize])).collect();
        if (0..n).any(|i| (0..i).any(|j| conflict(&ps[i], &ps[j]))) {
            bad.push(v);
        } else {
            good.push(v);
        }
    }
    (good, bad)
}

const KINDS: [i64; 6] = [0, 1 + 7 * 2 + 49 * 3 + 343 * 4, 5 + 7 * 5 + 49 * 5 + 343 * 5, 2 + 7 + 49 + 343 * 3, 3 + 7 * 6 + 49 * 2 + 343, 6 + 7 * 4 + 49 * 5 + 343 * 2];

pub fn c12(ctx: &Ctx) {
    let si = ctx.scen("glayout");
    let max = ctx.pick(4, 5);
    for n in 0..=max {
        let (good, bad) = valid_layouts(n);
        // Leaf i is interchangeable with leaf j here, so ordered lists cover every order of types.
        let kinds: &[i64] = if n <= 3 { &KINDS } else { &KINDS[..2] };
        // For n = 4 and more every order is enumerated inside a case: sorted lists suffice.
        let all: Vec<&Vec<i64>> = good.iter().chain(bad.iter()).filter(|v| n < 4 || v.windows(2).all(|w| w[0] <= w[1])).collect();
        ctx.par(all.len() as u64, |i| {
            for k in kinds {
                let mut p = vec![*k];
                p.extend(all[i as usize]);
                ctx.run(si, &p);
            }
        });
        ctx.note(format!("{} lists of {n} paths out of {}, each inserted in all {} orders ({} of the lists in conflict)", all.len(), PATHS.len(), orders(n).len(), all.len() - all.iter().filter(|v| good.contains(v)).count()));
    }
    let w = ctx.scen("gwidelayout");
    let mut v = vec![];
    for n in 1..=MAXL as i64 {
        for style in 0..7 {
            for kind in [0, 1, 5] {
                v.push(vec![n, style, kind]);
            }
        }
    }
    ctx.par_items(&v, |p| {
        ctx.run(w, p);
    });
    ctx.note(format!("directories of up to {MAXL} entries in seven styles, many orders"));
    let b = ctx.scen("gbiglayout");
    let mut v = vec![];
    for n in big_sizes(ctx) {
        for style in 0..7 {
            for kind in [0, 1] {
                v.push(vec![n, style, kind]);
            }
        }
    }
    let k = v.len();
    ctx.par_items(&v, |p| {
        ctx.run(b, p);
    });
    ctx.note(format!("{k} groups of 21 to {HUGE} leaves, up to {HUGE} levels deep, with conflicts of each kind"));
    vasts(ctx);
    let lg = ctx.scen("glong");
    let v: Vec<_> = lengths(ctx).into_iter().flat_map(|l| (0..4).map(move |s| vec![l, s, 0])).collect();
    ctx.par_items(&v, |p| {
        ctx.run(lg, p);
    });
    ctx.note("path elements of every length up to 300 bytes and around powers of two up to 65537");
    let na = ctx.scen("gname");
    let v: Vec<_> = name_lists(ctx).into_iter().flat_map(|l| (0..6).map(move |s| [vec![s, -1], l.clone()].concat())).collect();
    let k = v.len();
    ctx.par_items(&v, |p| {
        ctx.run(na, p);
    });
    ctx.note(format!("{} unusual names (case, digits, blanks, separators, not ASCII): {k} layouts of 2 to 4 of them in seven styles, all orders", NAMES.len()));
}

pub fn c11(ctx: &Ctx) {
    let si = ctx.scen("gselect");
    let max = ctx.pick(4, 5);
    for n in 1..=max {
        let (good, _) = valid_layouts(n.min(4));
        let good: Vec<Vec<i64>> = if n == 5 {
            let mut o = vec![];
            for g in good.iter().filter(|v| v.windows(2).all(|w| w[0] < w[1])) {
                for x in 0..PATHS.len() as i64 {
                    let ps: Vec<_> = g.iter().map(|i| strs(PATHS[*i as usize])).collect();
                    if ps.iter().all(|q| !conflict(q, &strs(PATHS[x as usize]))) {
                        let mut g = g.clone();
                        g.push(x);
                        o.push(g);
                    }
                }
            }
            o
        } else {
            good
        };
        let kinds: &[i64] = if n <= 2 { &KINDS } else { &KINDS[1..3] };
        // Every leaf: not selected, in full, or one of the partial selections.
        let opts: i64 = if n <= 2 { 2 + HOWS } else { 3 };
        ctx.par(good.len() as u64, |i| {
            let g = &good[i as usize];
            for k in kinds {
                for c in 0..opts.pow(n as u32) {
                    let mut p = vec![*k, n as i64];
                    p.extend(g);
                    for x in 0..n {
                        let h = c / opts.pow(x as u32) % opts;
                        if h > 0 {
                            p.push(x as i64 * 8 + if h == 2 && opts == 3 { 1 + (x as i64 + k) % 3 % (1 + HOWS) } else { h - 1 });
                        }
                    }
                    ctx.run(si, &p);
                }
            }
        });
        ctx.note(format!("{} layouts of {n} leaves, all {} selections each", good.len(), opts.pow(n as u32)));
    }
    // Order and repetition of selections.
    let (good, _) = valid_layouts(3);
    let good: Vec<_> = good.into_iter().filter(|v| v.windows(2).all(|w| w[0] < w[1])).collect();
    ctx.par(good.len() as u64, |i| {
        for c in 0..216i64 {
            let mut p = vec![KINDS[1], 3];
            p.extend(&good[i as usize]);
            for s in [c % 6, c / 6 % 6, c / 36] {
                p.push(s / 2 * 8 + s % 2);
            }
            ctx.run(si, &p);
        }
    });
    ctx.note("all sequences of 3 selections (repetitions included) on layouts of 3 leaves");
    let w = ctx.scen("gwide");
    let mut v = vec![];
    for n in 1..=MAXL as i64 {
        for style in 0..7 {
            for kind in [0, 1] {
                for a in 0..n {
                    v.push(vec![n, style, kind, a * 8 + kind]);
                    for b in 0..a {
                        v.push(vec![n, style, kind, a * 8, b * 8 + 1]);
                    }
                }
            }
        }
    }
    for n in 5..=ctx.pick(8i64, 11) {
        for style in [0, 1, 2, 3, 5] {
            for mask in 0..1i64 << n {
                let mut p = vec![n, style, 5];
                p.extend((0..n).filter(|i| mask >> i & 1 == 1).map(|i| i * 8));
                v.push(p);
            }
        }
    }
    ctx.par_items(&v, |p| {
        ctx.run(w, p);
    });
    ctx.note(format!("{} selections in directories of up to {MAXL} leaves: all singles and pairs, all subsets up to {} leaves", v.len(), ctx.pick(8, 11)));
    let b = ctx.scen("gbig");
    let mut v = vec![];
    for n in big_sizes(ctx) {
        for style in 0..7 {
            for kind in [0, 1] {
                v.push(vec![n, style, kind, 5, 0, 0]);
                for x in 0..n {
                    for how in [1, 2, 3] {
                        v.push(vec![n, style, kind, how, x, 0]);
                    }
                    v.push(vec![n, style, kind, 4, x, 1 + x]);
                }
            }
        }
    }
    let k = v.len();
    ctx.par_items(&v, |p| {
        ctx.run(b, p);
    });
    ctx.note(format!("{k} selections in groups of 21 to {HUGE} leaves, up to {HUGE} levels deep: one leaf, all but one, neighbours, runs, all"));
    let lg = ctx.scen("glong");
    let v: Vec<_> = lengths(ctx).into_iter().flat_map(|l| (0..4 * 8).map(move |s| vec![l, s / 8, s % 8])).collect();
    ctx.par_items(&v, |p| {
        ctx.run(lg, p);
    });
    ctx.note("all selections with path elements of every length up to 300 bytes and around powers of two up to 65537");
    let na = ctx.scen("gname");
    let v: Vec<_> = name_lists(ctx)
        .into_iter()
        .filter(|l| l.len() < 4)
        .flat_map(|l| (0..6 << l.len()).map(move |s| [vec![s % 6, s / 6], l.clone()].concat()))
        .collect();
    let k = v.len();
    ctx.par_items(&v, |p| {
        ctx.run(na, p);
    });
    ctx.note(format!("{k} selections in groups of 2 or 3 unusual names"));
    vasts(ctx);
    let mu = ctx.scen("gmutate");
    for l in 0..LAYOUTS.len() as i64 {
        let n = LAYOUTS[l as usize].len() as i64;
        let alpha: Vec<i64> = (0..n).flat_map(|x| (0..6).map(move |c| x * 16 + c)).collect();
        let d = if n <= 2 { 3 } else { ctx.pick(2, 3) };
        ctx.sequences(mu, &[l], &alpha, d);
    }
    ctx.note("six layouts: all histories of up to 2 to 3 changes through the leaves' types, then every selection");
    let ne = ctx.scen("gnested");
    let mut v = vec![];
    for o in 0..LAYOUTS.len() as i64 {
        for i in 0..LAYOUTS.len() as i64 {
            for os in 0..1i64 << LAYOUTS[o as usize].len() {
                for is in 0..1i64 << LAYOUTS[i as usize].len() {
                    v.push(vec![o, i, is << 5 | os]);
                }
            }
        }
    }
    ctx.par_items(&v, |p| {
        ctx.run(ne, p);
    });
    ctx.note("groups inside groups: six by six layouts, all outer and inner selections, before and after a change");
}

/// Selects leaf `n` in full (0) or by its hash only (1).
pub fn select_plain<'a>(ray: certified_vars::collections::group::Ray<'a>, n: usize, how: i64) -> certified_vars::collections::group::Ray<'a> {
    match how {
        0 => by_n!(n, N => ray.full::<Leaf<N>>()),
        _ => by_n!(n, N => ray.partial(|l: &Leaf<N>| HashTree::Pruned(l.root_hash()))),
    }
}
