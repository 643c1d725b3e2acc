//! What is explored for the properties of `Map` and `RbTree`.
use crate::engine::Ctx;
use crate::hist::*;
use std::collections::HashSet;
use std::sync::Mutex;

pub const BOUNDS: &str = "see parts: every operation sequence up to a depth over three or four keys; every reachable tree shape up to a number of keys, with every single and every pair of further operations; every permutation of small sets of boundary keys for 16 key types; insertion, removal and churn patterns for all small and selected large sizes";
pub const ASSUME: &[&str] = &[
    "SHA-256 is collision free on the inputs explored",
    "keys and values behave: Ord is a total order, label and hash are functions of the value",
    "a behaviour not shown within the bounds (more keys, longer histories) is not covered",
];

/// Operations that change the tree or hand out mutable access, the others only differ in what
/// they return.
const CORE: &[i64] = &[INS, REM, GETMUT, E_INSW];

struct Plan {
    mask: i64,
    /// depth of the sequences over the full alphabet (3 keys) and over the core one (4 keys)
    full: usize,
    core: usize,
    /// keys of the shape search
    shape: usize,
    edges: bool,
    /// shapes up to this size get every pair of operations
    pairs: usize,
    /// kinds continued from every shape
    kinds: &'static [i64],
    /// families: all sizes up to, and the selected sizes
    fam: i64,
    fam_big: &'static [i64],
    perm: usize,
    whiches: &'static [i64],
}

fn explore(ctx: &Ctx, pl: Plan) {
    let si = ctx.scen("hist");
    for which in pl.whiches {
        let mut alpha: Vec<i64> = UNKEYED.iter().map(|k| op(*k, 0)).collect();
        for k in KEYED {
            for i in [16, 8, 24] {
                alpha.push(op(*k, i));
            }
        }
        ctx.sequences(si, &[*which, pl.mask], &alpha, pl.full);
        let mut alpha = vec![];
        for k in CORE {
            for i in [16, 8, 24, 12] {
                alpha.push(op(*k, i));
            }
        }
        ctx.sequences(si, &[*which, pl.mask], &alpha, pl.core);
    }
    ctx.note(format!(
        "sequences: all of length <= {} over {} operations on 3 keys and all of length <= {} over {} operations on 4 keys",
        pl.full,
        UNKEYED.len() + 3 * KEYED.len(),
        pl.core,
        4 * CORE.len()
    ));
    // Values that are certified in part, often alike.
    let mut alpha = vec![op(CLEAR, 0)];
    for k in [INS, REM, GETMUT, E_INSW, INSW] {
        for i in [16, 8] {
            alpha.push(op(k, i));
        }
    }
    for which in pl.whiches {
        ctx.sequences(si, &[4 + *which, pl.mask], &alpha, pl.core);
    }
    ctx.note(format!("sequences: all of length <= {} over {} operations on 2 keys, with values that only differ in a part that is not certified", pl.core, alpha.len()));
    if pl.mask & (MEMBER | ABSENT | RANGE) != 0 {
        let di = ctx.scen("dirty");
        let top = ctx.pick(if pl.mask & RANGE != 0 { 5 } else { 9 }, if pl.mask & RANGE != 0 { 8 } else { 16 });
        let mut v = vec![];
        for n in 1..=top {
            for pat in [0, 1, 3] {
                for how in 0..TOUCHES {
                    for which in [0, 1] {
                        v.push(vec![which, pl.mask, pat, n, how]);
                    }
                }
            }
        }
        v.reverse();
        ctx.par_items(&v, |p| {
            ctx.run(di, p);
        });
        ctx.note(format!("unread changes: maps of up to {top} keys, one or two values changed in {TOUCHES} ways, then any witness as the first thing read"));
    }
    if pl.mask & CONTENT != 0 {
        let ci = ctx.scen("collected");
        for how in 0..6 {
            ctx.sequences(ci, &[how], &[1, 2, 3], ctx.pick(6, 9));
        }
        ctx.note(format!("collecting: every sequence of up to {} pairs over 3 keys", ctx.pick(6, 9)));
    }
    if pl.shape > 0 {
        let w = *pl.whiches.last().unwrap();
        let all = shapes(ctx, w, pl.mask, pl.shape, pl.edges);
        let bigs: Vec<&St> = all.iter().collect();
        // One more operation, any kind, on every key and gap.
        ctx.par_items(&bigs, |st| {
            let mut keys = st.keys.clone();
            keys.extend(gaps(&st.keys));
            for kind in pl.kinds {
                for k in &keys {
                    let mut p = vec![w, pl.mask];
                    p.extend(&st.hist);
                    p.push(op(*kind, *k));
                    ctx.run(si, &p);
                    if ctx.stopped() {
                        return;
                    }
                }
            }
        });
        ctx.note(format!("from every shape representative: every one of {} kinds of operation on every key and gap", pl.kinds.len()));
        // Pairs: one representative per shape.
        let seen = Mutex::new(HashSet::new());
        let small: Vec<&St> = all.iter().filter(|s| s.keys.len() <= pl.pairs && seen.lock().unwrap().insert(s.shape)).collect();
        let w0 = pl.whiches[0];
        ctx.par_items(&small, |st| {
            let mut keys = st.keys.clone();
            keys.extend(gaps(&st.keys));
            let ops: Vec<i64> = CORE.iter().flat_map(|kd| keys.iter().map(move |k| op(*kd, *k))).collect();
            for a in &ops {
                for b in &ops {
                    let mut p = vec![w0, pl.mask];
                    p.extend(&st.hist);
                    p.push(*a);
                    p.push(*b);
                    ctx.run(si, &p);
                    if ctx.stopped() {
                        return;
                    }
                }
            }
        });
        ctx.note(format!("from each of {} shapes with <= {} keys: every pair of mutations", small.len(), pl.pairs));
    }
    agains(ctx, &pl);
    families(ctx, &pl);
    bulks(ctx, &pl);
    perms_all(ctx, &pl);
}

fn families(ctx: &Ctx, pl: &Plan) {
    let fi = ctx.scen("family");
    let mut items = vec![];
    for n in 0..=pl.fam {
        for pat in 0..PATTERNS {
            for del in 0..PATTERNS {
                let churn = if del < 5 { del } else { 0 };
                items.push(vec![(n + pat) % 2, pl.mask, pat, n, del, churn]);
            }
        }
    }
    let small = items.len();
    for n in pl.fam_big {
        for pat in 0..PATTERNS {
            if *n > 4999 && (![0, 1, 7].contains(&pat) || pat < 7 && pl.mask & RANGE != 0) {
                continue;
            }
            items.push(vec![(n + pat) % 2, pl.mask | SPARSE, pat, *n, (pat * 3 + 1) % PATTERNS, if *n < 1000 { pat % 5 } else { 0 }]);
        }
    }
    items.reverse();
    ctx.par_items(&items, |p| {
        ctx.run(fi, p);
    });
    ctx.note(format!(
        "patterns: {small} insertion x removal x churn patterns for every size <= {}, {} for sizes {:?}",
        pl.fam,
        items.len() - small,
        pl.fam_big
    ));
}

fn agains(ctx: &Ctx, pl: &Plan) {
    let ai = ctx.scen("again");
    let mut v = vec![];
    for n in [0, 1, 3, 6] {
        let mut ops: Vec<i64> = UNKEYED.iter().map(|k| op(*k, 0)).collect();
        for k in KEYED {
            for i in if n == 6 { vec![8, 28, 32, 48] } else { vec![8, 12, 24] } {
                ops.push(op(*k, i));
            }
        }
        for a in ops {
            let k = op_key(a).max(8);
            for (c, b) in [-1, op(INS, k), op(REM, k), op(GETMUT, k)].into_iter().enumerate() {
                v.push(vec![(n + c as i64) % 2, pl.mask, n, a, b, ctx.pick(260, 1030)]);
            }
        }
    }
    // More of them than a counter of 16 bits counts.
    for a in [op(INS, 16), op(GETMUT, 16), op(E_INSW, 20), op(ROOTHASH, 0), op(WITNESS, 20), op(REM, 20)] {
        for b in [-1, op(REM, 16), op(INS, 16)] {
            v.push(vec![(b >= 0) as i64, pl.mask, 3, a, b, 66_000]);
        }
    }
    v.reverse();
    ctx.par_items(&v, |p| {
        ctx.run(ai, p);
    });
    ctx.note(format!("repetition: {} pairs of operations repeated up to {} times on small maps, 18 pairs 66000 times", v.len() - 18, ctx.pick(260, 1030)));
}

fn bulks(ctx: &Ctx, pl: &Plan) {
    let bi = ctx.scen("bulk");
    let mut items = vec![];
    let mut ns: Vec<i64> = (1..=pl.fam.min(20)).chain([24, 31, 32, 33, 48, 63, 64, 65, 100]).collect();
    ns.extend(pl.fam_big.iter().filter(|n| (101..20000).contains(*n)));
    for n in ns {
        for way in 0..WAYS {
            for pat in 0..PATTERNS {
                if (n > 1000 || n > 12 && pl.mask & RANGE != 0) && (pat + way) % 4 != 0 || n > 100 && pl.mask & RANGE != 0 {
                    continue;
                }
                items.push(vec![pl.mask, pat, n, way, (pat * 3 + way) % PATTERNS]);
            }
        }
    }
    items.reverse();
    ctx.par_items(&items, |p| {
        ctx.run(bi, p);
    });
    ctx.note(format!("made at once: {} maps of up to {} entries collected or read from CBOR and Candid in {WAYS} ways and eight orders, then changed and emptied", items.len(), items[0][2]));
}

fn perms_all(ctx: &Ctx, pl: &Plan) {
    let pi = ctx.scen("perms");
    let mut n = 0;
    for kk in 0..NKK {
        let m = if kk == 0 { 6 } else { kk_n(kk) };
        // Every ordered selection of up to `perm` of the boundary keys.
        let mut work: Vec<Vec<i64>> = vec![vec![]];
        let mut level: Vec<Vec<i64>> = vec![vec![]];
        for _ in 0..pl.perm {
            let mut next = vec![];
            for s in &level {
                for k in 0..m {
                    if !s.contains(&k) {
                        let mut s = s.clone();
                        s.push(k);
                        next.push(s);
                    }
                }
            }
            work.extend(next.iter().cloned());
            level = next;
        }
        n += work.len();
        ctx.par_items(&work, |s| {
            let mut p = vec![kk * 2 + (s.len() as i64 + kk) % 2, pl.mask];
            p.extend(s);
            ctx.run(pi, &p);
        });
    }
    ctx.note(format!("key types: {n} ordered selections of <= {} boundary keys over {NKK} key types, and every state one removal away", pl.perm));
}

const BOTH: &[i64] = &[0, 1];
const BIG_Q: &[i64] = &[100, 255, 256, 1000, 4095, 66000];
const BIG_T: &[i64] = &[100, 127, 128, 129, 255, 256, 257, 511, 1000, 4095, 4096, 20000, 65537];
const CORE_W: &[i64] = &[INS, REM, GETMUT, E_INSW, E_REM, INSW];

pub fn c01(ctx: &Ctx) {
    let q = ctx.quick();
    equals(ctx, [2, 3]);
    explore(
        ctx,
        Plan {
            mask: CONTENT,
            full: if q { 3 } else { 4 },
            core: if q { 5 } else { 6 },
            shape: if q { 11 } else { 17 },
            edges: true,
            pairs: if q { 6 } else { 9 },
            kinds: if q { CORE_W } else { KEYED },
            fam: if q { 40 } else { 130 },
            fam_big: if q { BIG_Q } else { BIG_T },
            perm: if q { 4 } else { 5 },
            whiches: BOTH,
        },
    )
}
fn equals(ctx: &Ctx, whiches: [i64; 2]) {
    let ei = ctx.scen("equal");
    let ops: Vec<i64> = (0..5).flat_map(|k| (0..3).flat_map(move |i| (0..if k == 0 || k == 3 { 2 } else { 1 }).map(move |x| k * 16 + i * 4 + x))).collect();
    let d = ctx.pick(4, 5);
    for which in whiches {
        ctx.sequences(ei, &[which], &ops, d);
    }
    ctx.note(format!("keys that are equal but have different labels: all histories of length <= {d} over {} operations", ops.len()));
}
pub fn c02(ctx: &Ctx) {
    let q = ctx.quick();
    value_shapes(ctx, ROOT);
    equals(ctx, [0, 1]);
    explore(
        ctx,
        Plan {
            mask: ROOT,
            full: if q { 3 } else { 4 },
            core: if q { 5 } else { 6 },
            shape: if q { 11 } else { 16 },
            edges: true,
            pairs: if q { 6 } else { 9 },
            kinds: if q { CORE_W } else { KEYED },
            fam: if q { 32 } else { 130 },
            fam_big: if q { &[100, 256, 1000, 66000] } else { BIG_T },
            perm: if q { 4 } else { 5 },
            whiches: BOTH,
        },
    )
}
fn proofs(ctx: &Ctx, mask: i64) {
    let q = ctx.quick();
    value_shapes(ctx, mask);
    explore(
        ctx,
        Plan {
            mask,
            full: if q { 2 } else { 3 },
            core: if q { 4 } else { 5 },
            shape: if q { 11 } else { 15 },
            edges: false,
            pairs: if q { 4 } else { 7 },
            kinds: CORE_W,
            fam: if q { 24 } else { 80 },
            fam_big: if q { &[100, 256, 1000, 66000] } else { BIG_T },
            perm: if q { 4 } else { 5 },
            whiches: BOTH,
        },
    )
}
pub fn c03(ctx: &Ctx) {
    proofs(ctx, MEMBER)
}
pub fn c04(ctx: &Ctx) {
    proofs(ctx, ABSENT)
}
pub fn c05(ctx: &Ctx) {
    let q = ctx.quick();
    value_shapes(ctx, RANGE);
    explore(
        ctx,
        Plan {
            mask: RANGE,
            full: if q { 2 } else { 3 },
            core: if q { 4 } else { 5 },
            shape: if q { 9 } else { 13 },
            edges: false,
            pairs: if q { 3 } else { 5 },
            kinds: CORE_W,
            fam: if q { 12 } else { 40 },
            fam_big: if q { &[100, 256, 300, 5000] } else { BIG_T },
            perm: if q { 3 } else { 5 },
            whiches: BOTH,
        },
    )
}
pub fn c18(ctx: &Ctx) {
    let q = ctx.quick();
    explore(
        ctx,
        Plan {
            mask: HEIGHT,
            full: 2,
            core: if q { 4 } else { 5 },
            shape: if q { 12 } else { 18 },
            edges: true,
            pairs: if q { 5 } else { 9 },
            kinds: &[INS, REM],
            fam: if q { 64 } else { 200 },
            fam_big: if q { BIG_Q } else { BIG_T },
            perm: 2,
            whiches: BOTH,
        },
    )
}

/// A key of which only a part counts in comparisons; its label shows the rest as well.
#[derive(Clone, Debug)]
pub struct Fold(u8, u8);
impl PartialEq for Fold {
    fn eq(&self, o: &Fold) -> bool {
        self.0 == o.0
    }
}
impl Eq for Fold {}
impl PartialOrd for Fold {
    fn partial_cmp(&self, o: &Fold) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Fold {
    fn cmp(&self, o: &Fold) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl certified_vars::label::Label for Fold {
    fn as_label(&self) -> std::borrow::Cow<'_, [u8]> {
        vec![self.0, self.1].into()
    }
}

/// Keys that are equal, with different labels: whatever key is kept, hash and trees agree on it.
/// Parameters: Map or RbTree (+ 2: only what the operations return), operations (what * 16 + key * 4
/// + rest of the label).
pub fn equal(p: &[i64], obs: &mut crate::engine::Obs) -> Result<(), String> {
    use crate::spec;
    use certified_vars::{rbtree::entry::Entry, rbtree::RbTree, AsHashTree, Map};
    use crate::hist::ck;
    let mut m: Map<Fold, u8> = Map::new();
    let mut r: RbTree<Fold, u8> = RbTree::new();
    // An ordinary dictionary tells which of the equal keys is in the map.
    let mut b: std::collections::BTreeMap<Fold, u8> = std::collections::BTreeMap::new();
    let plain = |e: Option<(Fold, u8)>| e.map(|(k, v)| (k.0, k.1, v));
    for (n, o) in p[1..].iter().enumerate() {
        let (k, v) = (Fold((o / 4 % 4) as u8, (o % 4) as u8), n as u8);
        let (k2, k3) = (k.clone(), k.clone());
        let got = if p[0] % 2 == 0 {
            match o / 16 {
                0 => m.insert(k, v).map(|v| (k2, v)),
                1 => m.remove_entry(&k),
                2 => m.get_mut(&k).map(|x| (k2, std::mem::replace(x, v))),
                3 => {
                    *m.entry(k).or_insert(v) ^= 1;
                    None
                }
                _ => match m.entry(k) {
                    Entry::Occupied(e) => Some(e.remove_entry()),
                    _ => None,
                },
            }
        } else {
            match o / 16 {
                0 => {
                    let (old, x) = r.insert(k, v);
                    *x ^= 3;
                    old.map(|v| (k2, v))
                }
                1 => r.delete(&k),
                2 => r.modify(&k, |x| std::mem::replace(x, v)).map(|v| (k2, v)),
                3 => {
                    *r.entry(k).or_insert(v) ^= 1;
                    None
                }
                _ => match r.entry(k) {
                    Entry::Occupied(e) => Some(e.remove_entry()),
                    _ => None,
                },
            }
        };
        let k = k3.clone();
        let want = match o / 16 {
            0 => b.insert(k, if p[0] % 2 == 0 { v } else { v ^ 3 }).map(|v| (k3, v)),
            1 | 4 => b.remove_entry(&k),
            2 => b.get_mut(&k).map(|x| (k3, std::mem::replace(x, v))),
            _ => {
                *b.entry(k).or_insert(v) ^= 1;
                None
            }
        };
        if p[0] >= 2 {
            let (got, want) = (plain(got), plain(want));
            ck(got == want, || format!("operation {n} ({o}) gives {got:?}, an ordinary dictionary {want:?}"))?;
            let mut all = vec![];
            if p[0] == 2 {
                m.iter().for_each(|x| all.push((x.0 .0, x.0 .1, *x.1)));
            } else {
                r.for_each(|k, v| all.push((k.0, k.1, *v)));
            }
            let want: Vec<_> = b.iter().map(|x| (x.0 .0, x.0 .1, *x.1)).collect();
            ck(all == want, || format!("after operation {n} ({o}) the entries are {all:?}, those of an ordinary dictionary {want:?}"))?;
        }
    }
    obs.steps = p.len() as u64 - 1;
    obs.fp = p.iter().fold(19, |a, x| a * 1009 + *x as u64);
    if p[0] >= 2 {
        return Ok(());
    }
    let (t, root) = if p[0] == 0 { (m.as_tree(), m.root_hash()) } else { (&r, r.root_hash()) };
    let full = spec::of(&t.as_hash_tree());
    ck(spec::digest(&full) == root, || format!("the digest of {full:?} is not the root hash"))?;
    let mut want: Vec<(Vec<u8>, u8)> = vec![];
    t.for_each(|k, v| want.push((vec![k.0, k.1], *v)));
    let mut shown = vec![];
    leaves(&full, &mut shown);
    ck(shown == want, || format!("the full tree shows {shown:?}, the entries are {want:?}"))?;
    for k in 0..4 {
        let w = spec::of(&t.witness(&Fold(k, 9)));
        ck(spec::digest(&w) == root, || format!("the digest of the witness of {k} is not the root hash"))?;
    }
    for w in [t.keys(), t.key_range(&Fold(1, 7), &Fold(2, 7)), t.value_range(&Fold(0, 7), &Fold(2, 7))] {
        ck(spec::digest(&spec::of(&w)) == root, || "the digest of a range's witness is not the root hash".into())?;
    }
    obs.steps = p.len() as u64 - 1;
    obs.fp = p.iter().fold(19, |a, x| a * 1009 + *x as u64);
    Ok(())
}

fn leaves(t: &crate::spec::T, o: &mut Vec<(Vec<u8>, u8)>) {
    use crate::spec::T;
    match t {
        T::F(a, b) => {
            leaves(a, o);
            leaves(b, o);
        }
        T::L(l, x) => {
            if let T::V(v) = &**x {
                o.push((l.to_vec(), v[0]));
            }
        }
        _ => (),
    }
}

/// Number of kinds of values that are no plain leaf.
const SHAPES: i64 = 9;
/// A value with a tree of its own.
#[derive(Clone, Debug, PartialEq)]
pub struct Shape(i64);
impl certified_vars::AsHashTree for Shape {
    fn as_hash_tree(&self) -> certified_vars::HashTree<'_> {
        use certified_vars::hashtree::{fork, labeled};
        use certified_vars::HashTree::{Empty, Leaf, Pruned};
        let leaf = |b: &'static [u8]| Leaf(b.into());
        match self.0 {
            0 => Empty,
            1 => leaf(b""),
            2 => leaf(b"v"),
            3 => Pruned([7; 32]),
            4 => labeled(b"", Empty),
            5 => labeled(b"d", leaf(b"w")),
            6 => fork(Empty, labeled(b"b", leaf(b"x"))),
            7 => fork(labeled(b"a", Pruned([8; 32])), fork(labeled(b"e", leaf(b"")), labeled(b"z", Empty))),
            _ => fork(Empty, Empty),
        }
    }
}

/// The check of witnesses of prefixes.
pub const PREFIXES: i64 = 1 << 20;
pub fn value_shapes(ctx: &Ctx, mask: i64) {
    let si = ctx.scen("shaped");
    let n = ctx.pick(4, 5);
    // For every key: 0 when it is missing, else one more than the kind of its value.
    let mut work = vec![];
    for c in 0..(SHAPES + 1).pow(n as u32) {
        let v: Vec<i64> = (0..n).map(|i| c / (SHAPES + 1).pow(i as u32) % (SHAPES + 1)).collect();
        // Any values for up to three keys; more keys with at most two kinds.
        let mut kinds: Vec<i64> = v.iter().copied().filter(|x| *x > 0).collect();
        let present = kinds.len();
        kinds.sort();
        kinds.dedup();
        if present > 3 && kinds.len() > 2 {
            continue;
        }
        for order in 0..3 {
            let mut p = vec![mask, order];
            p.extend(&v);
            work.push(p);
        }
    }
    ctx.par_items(&work, |p| {
        ctx.run(si, p);
    });
    ctx.note(format!("values with trees of their own: {} maps of up to {n} entries, {SHAPES} kinds of values (empty, leaves, pruned, labels, forks) in any combination on up to three keys, two kinds on more", work.len()));
}

/// Parameters: checks, order of insertion, for every key 0 or one more than the kind of its value.
pub fn shaped(p: &[i64], obs: &mut crate::engine::Obs) -> Result<(), String> {
    use crate::hist::ck;
    use crate::spec::{self, T};
    use certified_vars::{AsHashTree, Map};
    let key = |i: i64| ((b'a' + 2 * i as u8 + 1) as char).to_string();
    let mut e: Vec<(String, Shape)> = vec![];
    for (i, x) in p[2..].iter().enumerate() {
        if *x > 0 {
            e.push((key(i as i64), Shape(*x - 1)));
        }
    }
    let mut m: Map<String, Shape> = Map::new();
    let mut order: Vec<usize> = (0..e.len()).collect();
    match p[1] {
        0 => (),
        1 => order.reverse(),
        _ => order.rotate_left(e.len() / 2),
    }
    for i in order {
        m.insert(e[i].0.clone(), e[i].1.clone());
    }
    obs.steps = e.len() as u64;
    obs.trivial = e.is_empty();
    obs.fp = p.iter().fold(23, |a, x| a.wrapping_mul(1009).wrapping_add(*x as u64));
    let root = m.root_hash();
    let tree = |v: &Shape| spec::of(&v.as_hash_tree());
    // Every node of the level: labels with what must be below, anything else hidden.
    let shows = |w: &certified_vars::HashTree<'_>, want: Vec<(usize, bool)>, what: &str| -> Result<(), String> {
        let w = spec::of(w);
        ck(spec::digest(&w) == root, || format!("{what}: the digest of {w:?} is not the root hash"))?;
        let got: Vec<&T> = spec::flat(&w).into_iter().filter(|x| !matches!(x, T::P(_))).collect();
        let want: Vec<T> = want
            .into_iter()
            .map(|(i, value)| {
                let t = tree(&e[i].1);
                spec::l(e[i].0.as_bytes(), if value { t } else { T::P(spec::digest(&t)) })
            })
            .collect();
        ck(got.iter().copied().eq(&want), || format!("{what} shows {got:?}, expected {want:?}"))
    };
    let n = e.len();
    let probes: Vec<String> = (0..2 * p.len() as u8 - 3).map(|i| ((b'a' + i) as char).to_string()).collect();
    let near = |a: &String, b: &String, value: bool| -> Vec<(usize, bool)> {
        let (lo, hi) = (e.partition_point(|x| x.0 < *a), e.partition_point(|x| x.0 <= *b));
        let mut v: Vec<_> = (lo..hi).map(|i| (i, value)).collect();
        if lo > 0 && e.get(lo).map(|x| x.0 != *a).unwrap_or(true) {
            v.insert(0, (lo - 1, false));
        }
        if hi < n && !(hi > 0 && e[hi - 1].0 == *b) {
            v.push((hi, false));
        }
        v
    };
    if p[0] & PREFIXES != 0 {
        for a in probes.iter().map(|a| &a[..]).chain([""]) {
            let w = spec::of(&m.as_tree().keys_with_prefix(a));
            ck(spec::digest(&w) == root, || format!("the digest of the keys with {a:?} is not the root hash"))?;
            let mut seen = vec![];
            for x in spec::flat(&w).into_iter().filter(|x| !matches!(x, T::P(_))) {
                let T::L(l, t) = x else { return Err(format!("the keys with {a:?} show {x:?}")) };
                let Some(i) = e.iter().position(|x| x.0.as_bytes() == l) else { return Err(format!("the keys with {a:?} show the missing {l:?}")) };
                ck(**t == T::P(spec::digest(&tree(&e[i].1))), || format!("the keys with {a:?} show a value: {x:?}"))?;
                seen.push(i);
            }
            ck((0..n).all(|i| !e[i].0.starts_with(a) || seen.contains(&i)), || format!("the keys with {a:?} are {seen:?} of {e:?}"))?;
            let max = m.as_tree().max_entry_with_prefix(a).map(|x| (x.0.clone(), x.1.clone()));
            ck(max.as_ref() == e.iter().filter(|x| x.0.starts_with(a)).last(), || format!("the greatest with {a:?} is {max:?}"))?;
        }
    }
    if p[0] & ROOT != 0 {
        shows(&m.as_hash_tree(), (0..n).map(|i| (i, true)).collect(), "the full tree")?;
    }
    for a in &probes {
        let at = e.binary_search_by(|x| x.0.cmp(a));
        match at {
            Ok(i) if p[0] & MEMBER != 0 => {
                let w = m.witness(a);
                shows(&w, vec![(i, true)], "a witness")?;
                let (w, t) = (spec::of(&w), tree(&e[i].1));
                ck(spec::lookup(&w, a.as_bytes()) == spec::Look::Found(&t), || format!("looked up {a}: {w:?}"))?;
            }
            Err(_) if p[0] & ABSENT != 0 => {
                let w = m.witness(a);
                shows(&w, near(a, a, false), "a proof of absence")?;
                let w = spec::of(&w);
                ck(spec::lookup(&w, a.as_bytes()) == spec::Look::Absent, || format!("looked up the missing {a}: {w:?}"))?;
            }
            _ => (),
        }
        if p[0] & RANGE != 0 {
            for b in probes.iter().filter(|b| *b >= a) {
                shows(&m.witness_key_range::<String, String>(a, b), near(a, b, false), "a range of keys")?;
                shows(&m.witness_value_range::<String, String>(a, b), near(a, b, true), "a range of values")?;
            }
        }
    }
    if p[0] & RANGE != 0 {
        shows(&m.witness_keys(), (0..n).map(|i| (i, false)).collect(), "the witness of all keys")?;
    }
    Ok(())
}
