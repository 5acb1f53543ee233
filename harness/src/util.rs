//! Shared helpers that touch the implementation.
use crate::pda::Cfg;
use justjson::parser::{JsonKind, ParseConfig};
use justjson::{ErrorKind, JsonString, Value};
use std::sync::OnceLock;

pub fn config(c: &Cfg) -> ParseConfig {
    let mut p = ParseConfig::new().allowing_all_types_at_root(c.root_any);
    if c.trailing {
        p = p.allowing_trailing_commas();
    }
    match c.limit {
        Some(n) => p.with_recursion_limit(n),
        None => p.without_recursion_limit(),
    }
}

pub fn show_cfg(c: &Cfg) -> String {
    format!("trailing={} limit={:?} root_any={}", c.trailing, c.limit, c.root_any)
}

pub fn kind_code(k: JsonKind) -> u8 {
    match k {
        JsonKind::Null => b'n',
        JsonKind::Boolean => b'b',
        JsonKind::Number => b'#',
        JsonKind::String => b's',
        JsonKind::Object => b'o',
        JsonKind::Array => b'a',
    }
}
pub fn value_code(v: &Value<'_>) -> u8 {
    match v {
        Value::Null => b'n',
        Value::Boolean(_) => b'b',
        Value::Number(_) => b'#',
        Value::String(_) => b's',
        Value::Object(_) => b'o',
        Value::Array(_) => b'a',
    }
}
/// Root kind of an accepted text by its first significant byte.
pub fn first_code(doc: &[u8]) -> u8 {
    match doc.iter().find(|b| !crate::pda::is_ws(**b)) {
        Some(b'n') => b'n',
        Some(b't' | b'f') => b'b',
        Some(b'"') => b's',
        Some(b'{') => b'o',
        Some(b'[') => b'a',
        _ => b'#',
    }
}

pub fn kind_name<E: std::fmt::Debug>(k: &ErrorKind<E>) -> String {
    format!("{k:?}")
}

/// What the library decodes `\b` to. RFC 8259 says U+0008; the library (and its test suite) says
/// U+0007, which is recorded as a known finding of C07/C08. The other properties do not depend on
/// which of the two it is.
pub fn bs() -> char {
    static BS: OnceLock<char> = OnceLock::new();
    *BS.get_or_init(|| {
        match JsonString::from_json("\"\\b\"").ok().and_then(|s| s.decoded().next()) {
            Some('\u{7}') => '\u{7}',
            _ => '\u{8}',
        }
    })
}

use crate::rp::{self, RNode, RVal};
use justjson::doc::Node;
use justjson::JsonNumber;

/// The string carries exactly the given source content and decodes to the reference text.
pub fn same_string(s: &JsonString<'_>, src: &[u8], (a, b): (usize, usize)) -> Result<(), String> {
    let lit = &src[a..b];
    match s.as_json_str() {
        Some(x) if x.as_bytes() == lit => {}
        other => return Err(format!("string source {other:?}, expected {:?}", String::from_utf8_lossy(lit))),
    }
    let want = rp::decode(lit, bs()).ok_or("reference cannot decode")?;
    let got: String = s.decoded().collect();
    if got != want {
        return Err(format!("string decodes to {got:?}, expected {want:?}"));
    }
    Ok(())
}

pub fn same_number(n: &JsonNumber<'_>, src: &[u8], (a, b): (usize, usize)) -> Result<(), String> {
    if n.source().as_bytes() == &src[a..b] {
        Ok(())
    } else {
        Err(format!("number source {:?}, expected {:?}", n.source(), String::from_utf8_lossy(&src[a..b])))
    }
}

/// The value is a faithful image of the reference tree.
pub fn same_value(v: &Value<'_>, r: &RVal, src: &[u8]) -> Result<(), String> {
    match (v, r) {
        (Value::Null, RVal::Null) => Ok(()),
        (Value::Boolean(a), RVal::Bool(b)) if a == b => Ok(()),
        (Value::Number(n), RVal::Num(r)) => same_number(n, src, *r),
        (Value::String(s), RVal::Str(r)) => same_string(s, src, *r),
        (Value::Array(a), RVal::Arr(b)) if a.len() == b.len() => {
            a.iter().zip(b).try_for_each(|(v, r)| same_value(v, r, src))
        }
        (Value::Object(o), RVal::Obj(b)) if o.len() == b.len() => o.iter().zip(b).try_for_each(|(e, (k, r))| {
            same_string(&e.key, src, *k)?;
            same_value(&e.value, r, src)
        }),
        _ => Err(format!("value {v:?}, expected {r:?}")),
    }
}

pub fn same_node(n: &Node<'_>, r: &RNode, src: &[u8]) -> Result<(), String> {
    match (n, r) {
        (Node::Null, RNode::Null) => Ok(()),
        (Node::Boolean(a), RNode::Bool(b)) if a == b => Ok(()),
        (Node::Number(n), RNode::Num(a, b)) => same_number(n, src, (*a, *b)),
        (Node::String(s), RNode::Str(a, b)) => same_string(s, src, (*a, *b)),
        (Node::Object { length }, RNode::Obj(l)) if length == l => Ok(()),
        (Node::Array { length }, RNode::Arr(l)) if length == l => Ok(()),
        _ => Err(format!("node {n:?}, expected {r:?}")),
    }
}

/// Hash of the shape of a tree (for counting distinct model states).
pub fn shape_hash(r: &RVal) -> u64 {
    use crate::engine::mix;
    match r {
        RVal::Null => 1,
        RVal::Bool(b) => 2 + u64::from(*b),
        RVal::Num((a, b)) => mix(4, (b - a) as u64),
        RVal::Str((a, b)) => mix(5, (b - a) as u64),
        RVal::Arr(v) => v.iter().fold(6, |h, v| mix(h, shape_hash(v))),
        RVal::Obj(v) => v.iter().fold(7, |h, (k, v)| mix(mix(h, (k.1 - k.0) as u64), shape_hash(v))),
    }
}

/// Records the acceptor configurations and edges a text walks through.
pub fn trace_pda(doc: &[u8], cfg: &Cfg, w: &mut crate::engine::W) -> bool {
    let mut p = crate::pda::Pda::new();
    let mut c = p.code();
    w.state(c);
    for b in doc {
        w.edge(c, u64::from(*b));
        if p.step(*b, cfg).is_err() {
            return false;
        }
        c = p.code();
        w.state(c);
    }
    p.accepting()
}

/// What `d` displays under formatter flags, where it is not `want`: no flag may cut, pad or otherwise change the text.
pub fn flagged(d: &dyn std::fmt::Display, want: &str) -> Option<String> {
    if want.len() > 64 {
        return None;
    }
    [format!("{d:*^+80.1}"), format!("{d:090}"), format!("{d:<3.0}")].into_iter().find(|o| o != want)
}

/// The same with the alternate flag.
pub fn flagged_alternate(d: &dyn std::fmt::Display, want: &str) -> Option<String> {
    if want.len() > 64 {
        return None;
    }
    [format!("{d:*^+#80.1}"), format!("{d:#090}"), format!("{d:#}"), format!("{d:<#3.0}"), format!("{d:>#1}")].into_iter().find(|o| o != want)
}

/// The first of an iterator's provided methods that does not agree with stepping, where `want` is
/// what stepping yields (as seen through `key`).
pub fn methods<I: Iterator, K: PartialEq + Clone + std::fmt::Debug>(fresh: &dyn Fn() -> I, want: &[K], key: &dyn Fn(&I::Item) -> K) -> Option<String> {
    let n = want.len();
    let rest = |i: I| i.map(|x| key(&x)).collect::<Vec<K>>();
    for j in 0..=n {
        let after = &want[(j + 1).min(n)..];
        let mut bad: Vec<&str> = Vec::new();
        // Searching methods stop at the j-th item, having seen exactly those before it.
        let mut seen: Vec<K> = Vec::new();
        let mut hit = |x: &I::Item| {
            seen.push(key(x));
            seen.len() > j
        };
        let (mut a, mut b, mut c, mut d, mut e, mut f) = (fresh(), fresh(), fresh(), fresh(), fresh(), fresh());
        let mut calls = 0;
        let mut count = || {
            calls += 1;
            calls > j
        };
        let found = a.find(|x| hit(x)).map(|x| key(&x));
        if found.as_ref() != want.get(j) || seen[..] != want[..(j + 1).min(n)] || rest(a) != *after {
            bad.push("find");
        }
        let p = b.position(|_| count());
        if p != (j < n).then_some(j) || rest(b) != *after {
            bad.push("position");
        }
        let mut left = j;
        let mut down = || match left {
            0 => true,
            _ => {
                left -= 1;
                false
            }
        };
        if c.any(|_| down()) != (j < n) || rest(c) != *after {
            bad.push("any");
        }
        let mut left = j;
        let mut down = || match left {
            0 => false,
            _ => {
                left -= 1;
                true
            }
        };
        if d.all(|_| down()) != (j >= n) || rest(d) != *after {
            bad.push("all");
        }
        let mut k = 0;
        let m = e.find_map(|x| {
            k += 1;
            (k > j).then(|| key(&x))
        });
        if m.as_ref() != want.get(j) || rest(e) != *after {
            bad.push("find_map");
        }
        let mut k = 0;
        let m = f.try_fold(0, |s, x| {
            k += 1;
            if k > j { Err(key(&x)) } else { Ok(s + 1) }
        });
        if m != want.get(j).map_or(Ok(n), |k| Err(k.clone())) || rest(f) != *after {
            bad.push("try_fold");
        }
        let mut g = fresh();
        let taken: Vec<K> = g.by_ref().take(j).map(|x| key(&x)).collect();
        if taken[..] != want[..j] || rest(g) != want[j..] {
            bad.push("by_ref and take");
        }
        if fresh().skip(j).map(|x| key(&x)).collect::<Vec<K>>() != want[j..] {
            bad.push("skip");
        }
        let mut h = fresh().peekable();
        for _ in 0..j {
            h.next();
        }
        if h.peek().map(key).as_ref() != want.get(j) || h.map(|x| key(&x)).collect::<Vec<K>>() != want[j..] {
            bad.push("peekable");
        }
        if let Some(b) = bad.first() {
            return Some(format!("{b}, stopping at item {j} of {n}"));
        }
    }
    let mut each = Vec::new();
    fresh().for_each(|x| each.push(key(&x)));
    if each != want {
        return Some(format!("for_each gives {each:?}, stepping {want:?}"));
    }
    let same = |i: Option<I::Item>, w: Option<&K>| i.map(|x| key(&x)).as_ref() == w;
    if !same(fresh().reduce(|_, x| x), want.last()) || !same(fresh().reduce(|x, _| x), want.first()) {
        return Some("reduce".into());
    }
    if !same(fresh().max_by(|_, _| std::cmp::Ordering::Equal), want.last()) || !same(fresh().min_by(|_, _| std::cmp::Ordering::Equal), want.first()) {
        return Some("max_by or min_by among equals".into());
    }
    let mut i = 0;
    let mut no = 0;
    if !same(fresh().max_by_key(|_| { i += 1; i }), want.last()) || !same(fresh().min_by_key(|_| { no -= 1; no }), want.last()) {
        return Some("max_by_key or min_by_key".into());
    }
    let mut flip = false;
    let (x, y): (Vec<I::Item>, Vec<I::Item>) = fresh().partition(|_| {
        flip = !flip;
        flip
    });
    if !x.iter().map(key).eq(want.iter().step_by(2).cloned()) || !y.iter().map(key).eq(want.iter().skip(1).step_by(2).cloned()) {
        return Some("partition".into());
    }
    let z: Vec<K> = fresh().zip(0..n + 3).map(|(x, _)| key(&x)).collect();
    let c: Vec<K> = fresh().chain(fresh()).map(|x| key(&x)).collect();
    if z != want || c.len() != 2 * n || c[..n] != *want || c[n..] != *want {
        return Some("zip or chain".into());
    }
    None
}
