//! The client's side, written from the Internet Computer interface specification and independent
//! of the crate under test: hash trees, their digest, their CBOR encoding and label lookup.
use certified_vars::{Hash, HashTree};
use sha2::{Digest, Sha256};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum T {
    E,
    F(Box<T>, Box<T>),
    L(Vec<u8>, Box<T>),
    V(Vec<u8>),
    P(Hash),
}

pub fn f(a: T, b: T) -> T {
    T::F(Box::new(a), Box::new(b))
}
pub fn l(a: &[u8], b: T) -> T {
    T::L(a.to_vec(), Box::new(b))
}

/// Copies the value a caller of the crate gets.
pub fn of(h: &HashTree<'_>) -> T {
    match h {
        HashTree::Empty => T::E,
        HashTree::Fork(p) => f(of(p.left()), of(p.right())),
        HashTree::Labeled(lb, t) => T::L(lb.to_vec(), Box::new(of(t))),
        HashTree::Leaf(v) => T::V(v.to_vec()),
        HashTree::Pruned(x) => T::P(*x),
    }
}

pub fn sha(parts: &[&[u8]]) -> Hash {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

pub fn dom(s: &str, parts: &[&[u8]]) -> Hash {
    let mut h = Sha256::new();
    h.update([s.len() as u8]);
    h.update(s.as_bytes());
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

pub fn leaf_digest(b: &[u8]) -> Hash {
    dom("ic-hashtree-leaf", &[b])
}

pub fn digest(t: &T) -> Hash {
    match t {
        T::E => dom("ic-hashtree-empty", &[]),
        T::F(a, b) => dom("ic-hashtree-fork", &[&digest(a), &digest(b)]),
        T::L(lb, t) => dom("ic-hashtree-labeled", &[lb, &digest(t)]),
        T::V(v) => leaf_digest(v),
        T::P(h) => *h,
    }
}

fn head(out: &mut Vec<u8>, major: u8, n: usize) {
    let m = major << 5;
    if n < 24 {
        out.push(m | n as u8);
    } else if n < 256 {
        out.extend([m | 24, n as u8]);
    } else if n < 65536 {
        out.push(m | 25);
        out.extend((n as u16).to_be_bytes());
    } else if n as u64 <= u32::MAX as u64 {
        out.push(m | 26);
        out.extend((n as u32).to_be_bytes());
    } else {
        out.push(m | 27);
        out.extend((n as u64).to_be_bytes());
    }
}

fn bstr(out: &mut Vec<u8>, b: &[u8]) {
    head(out, 2, b.len());
    out.extend(b);
}

/// The encoding the specification gives for certificates' hash trees.
pub fn cbor(t: &T, out: &mut Vec<u8>) {
    match t {
        T::E => {
            head(out, 4, 1);
            out.push(0);
        }
        T::F(a, b) => {
            head(out, 4, 3);
            out.push(1);
            cbor(a, out);
            cbor(b, out);
        }
        T::L(lb, t) => {
            head(out, 4, 3);
            out.push(2);
            bstr(out, lb);
            cbor(t, out);
        }
        T::V(v) => {
            head(out, 4, 2);
            out.push(3);
            bstr(out, v);
        }
        T::P(h) => {
            head(out, 4, 2);
            out.push(4);
            bstr(out, h);
        }
    }
}

struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn u8(&mut self) -> Result<u8, String> {
        let (a, r) = self.0.split_first().ok_or("short")?;
        self.0 = r;
        Ok(*a)
    }
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.0.len() < n {
            return Err("short".into());
        }
        let (a, r) = self.0.split_at(n);
        self.0 = r;
        Ok(a)
    }
    fn head(&mut self) -> Result<(u8, usize), String> {
        let b = self.u8()?;
        let n = match b & 31 {
            x @ 0..=23 => x as usize,
            24 => self.u8()? as usize,
            25 => u16::from_be_bytes(self.take(2)?.try_into().unwrap()) as usize,
            26 => u32::from_be_bytes(self.take(4)?.try_into().unwrap()) as usize,
            27 => u64::from_be_bytes(self.take(8)?.try_into().unwrap()) as usize,
            _ => return Err("indefinite or reserved length".into()),
        };
        Ok((b >> 5, n))
    }
    fn bytes(&mut self) -> Result<&'a [u8], String> {
        let (m, n) = self.head()?;
        if m != 2 {
            return Err(format!("byte string expected, major type {m}"));
        }
        self.take(n)
    }
    fn tree(&mut self) -> Result<T, String> {
        let (m, n) = self.head()?;
        if m != 4 {
            return Err(format!("array expected, major type {m}"));
        }
        let (tm, tag) = self.head()?;
        if tm != 0 {
            return Err("tag is not an unsigned integer".into());
        }
        Ok(match (tag, n) {
            (0, 1) => T::E,
            (1, 3) => f(self.tree()?, self.tree()?),
            (2, 3) => {
                let lb = self.bytes()?.to_vec();
                T::L(lb, Box::new(self.tree()?))
            }
            (3, 2) => T::V(self.bytes()?.to_vec()),
            (4, 2) => T::P(self.bytes()?.try_into().map_err(|_| "digest length")?),
            x => return Err(format!("node {x:?}")),
        })
    }
}

pub fn uncbor(b: &[u8]) -> Result<T, String> {
    let mut r = Rd(b);
    let t = r.tree()?;
    if !r.0.is_empty() {
        return Err("trailing bytes".into());
    }
    Ok(t)
}

pub fn flatten<'a>(t: &'a T, out: &mut Vec<&'a T>) {
    match t {
        T::E => (),
        T::F(a, b) => {
            flatten(a, out);
            flatten(b, out);
        }
        t => out.push(t),
    }
}

pub fn flat(t: &T) -> Vec<&T> {
    let mut v = Vec::new();
    flatten(t, &mut v);
    v
}

#[derive(Debug, PartialEq, Eq)]
pub enum Look<'a> {
    Found(&'a T),
    Absent,
    Unknown,
}

/// `find_label` of the interface specification.
pub fn lookup<'a>(t: &'a T, label: &[u8]) -> Look<'a> {
    let v = flat(t);
    for x in &v {
        if let T::L(lb, s) = x {
            if lb == label {
                return Look::Found(s);
            }
        }
    }
    if v.is_empty() {
        return Look::Absent;
    }
    if v.len() == 1 {
        if let T::V(_) = v[0] {
            return Look::Absent;
        }
    }
    if let T::L(lb, _) = v[0] {
        if label < &lb[..] {
            return Look::Absent;
        }
    }
    if let T::L(lb, _) = v[v.len() - 1] {
        if &lb[..] < label {
            return Look::Absent;
        }
    }
    for w in v.windows(2) {
        if let (T::L(a, _), T::L(b, _)) = (w[0], w[1]) {
            if &a[..] < label && label < &b[..] {
                return Look::Absent;
            }
        }
    }
    Look::Unknown
}

/// Labels of this level (not below a label), in order.
pub fn labels(t: &T) -> Vec<&[u8]> {
    flat(t)
        .into_iter()
        .filter_map(|x| if let T::L(lb, _) = x { Some(&lb[..]) } else { None })
        .collect()
}

/// All leaf values of the tree, in order.
pub fn leaves(t: &T) -> Vec<&[u8]> {
    fn go<'a>(t: &'a T, o: &mut Vec<&'a [u8]>) {
        match t {
            T::F(a, b) => {
                go(a, o);
                go(b, o)
            }
            T::L(_, x) => go(x, o),
            T::V(v) => o.push(v),
            _ => (),
        }
    }
    let mut o = Vec::new();
    go(t, &mut o);
    o
}

/// All labels of the tree at any depth, in order.
pub fn all_labels(t: &T) -> Vec<&[u8]> {
    fn go<'a>(t: &'a T, o: &mut Vec<&'a [u8]>) {
        match t {
            T::F(a, b) => {
                go(a, o);
                go(b, o)
            }
            T::L(lb, x) => {
                o.push(lb);
                go(x, o)
            }
            _ => (),
        }
    }
    let mut o = Vec::new();
    go(t, &mut o);
    o
}

pub fn has_pruned(t: &T) -> bool {
    match t {
        T::P(_) => true,
        T::F(a, b) => has_pruned(a) || has_pruned(b),
        T::L(_, x) => has_pruned(x),
        _ => false,
    }
}

/// (number of forks above the deepest label of this level, number of nodes of this level)
pub fn depth(t: &T) -> usize {
    match t {
        T::F(a, b) => 1 + depth(a).max(depth(b)),
        _ => 0,
    }
}

pub fn nodes(t: &T) -> usize {
    match t {
        T::F(a, b) => 1 + nodes(a) + nodes(b),
        _ => 1,
    }
}

/// Structure of the forks of this level, a fingerprint of the search tree's shape.
pub fn shape(t: &T, out: &mut Vec<u8>) {
    match t {
        T::F(a, b) => {
            out.push(b'(');
            shape(a, out);
            shape(b, out);
            out.push(b')');
        }
        T::L(..) => out.push(b'.'),
        T::E => out.push(b'0'),
        T::V(_) => out.push(b'v'),
        T::P(_) => out.push(b'p'),
    }
}

/// Labels of every level strictly ascending, as the specification demands.
pub fn well_formed(t: &T) -> bool {
    let ls = labels(t);
    ls.windows(2).all(|w| w[0] < w[1])
        && flat(t).iter().all(|x| if let T::L(_, s) = x { well_formed(s) } else { true })
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
