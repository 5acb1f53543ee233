//! C23: accessors and edits of values and objects behave like a list of entries.
use jjmc::engine::{self, hash_bytes, mix, Check, Family, Level, Task, Tier, W};
use jjmc::gen;
use jjmc::strs::Repr;
use justjson::{Entry, JsonNumber, JsonString, Object, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// The model: a list of entries.
#[derive(Clone, PartialEq, Debug)]
enum M {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<M>),
    Obj(Vec<(String, M)>),
}

impl M {
    fn hash(&self) -> u64 {
        match self {
            M::Null => 1,
            M::Bool(b) => 2 + u64::from(*b),
            M::Num(s) => hash_bytes(4, s.as_bytes()),
            M::Str(s) => hash_bytes(5, s.as_bytes()),
            M::Arr(v) => v.iter().fold(6, |h, v| mix(h, v.hash())),
            M::Obj(v) => v.iter().fold(7, |h, (k, v)| mix(mix(h, hash_bytes(8, k.as_bytes())), v.hash())),
        }
    }
    fn get(&self, key: &str) -> Option<&M> {
        match self {
            M::Obj(v) => v.iter().find(|(k, _)| k == key).map(|(_, v)| v),
            _ => None,
        }
    }
}

/// A document whose values and keys contain only escapes this file decodes itself.
const STARTS: &[&str] = &[
    "null",
    "{}",
    "[]",
    "{\"a\":{\"b\":1,\"\\u0062\":2},\"b\":[true,null]}",
    "{\"\\u0061\":1,\"a\":2,\"b\":3}",
    "{\"b\":[],\"a\":[{\"a\":0},[1,2]],\"\\n\":\"x\"}",
    "[{\"a\":1,\"b\":2},[3,4],\"s\"]",
    "[[[]],{\"\\n\":{}}]",
    "\"a\\n\"",
    "{\"\":{\"\":null},\"a\":\"\\u0061\"}",
];

/// The decoded form of a start document, by hand.
fn start_model(i: usize) -> M {
    use M::{Arr, Bool, Null, Num, Obj, Str};
    let n = |s: &str| Num(s.into());
    let e = |k: &str, v: M| (k.to_string(), v);
    match i {
        0 => Null,
        1 => Obj(vec![]),
        2 => Arr(vec![]),
        3 => Obj(vec![e("a", Obj(vec![e("b", n("1")), e("b", n("2"))])), e("b", Arr(vec![Bool(true), Null]))]),
        4 => Obj(vec![e("a", n("1")), e("a", n("2")), e("b", n("3"))]),
        5 => Obj(vec![
            e("b", Arr(vec![])),
            e("a", Arr(vec![Obj(vec![e("a", n("0"))]), Arr(vec![n("1"), n("2")])])),
            e("\n", Str("x".into())),
        ]),
        6 => Arr(vec![Obj(vec![e("a", n("1")), e("b", n("2"))]), Arr(vec![n("3"), n("4")]), Str("s".into())]),
        7 => Arr(vec![Arr(vec![Arr(vec![])]), Obj(vec![e("\n", Obj(vec![]))])]),
        8 => Str("a\n".into()),
        _ => Obj(vec![e("", Obj(vec![e("", Null)])), e("a", Str("a".into()))]),
    }
}

#[derive(Clone, Copy, Debug)]
enum Step {
    K(&'static str),
    I(usize),
}
use Step::{I, K};
const PATHS: &[&[Step]] = &[
    &[],
    &[K("a")],
    &[I(0)],
    &[K("a"), K("b")],
    &[K("b")],
    &[K("\n")],
    &[I(1)],
    &[K("a"), I(0)],
    &[I(0), K("a")],
    &[I(1), I(0)],
    &[K("")],
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Edit {
    Set(u8),
    Push(u8),
    Insert0,
    Remove0,
    Pop,
    Swap,
    Clear,
    Rename,
    EntryValue,
    Retain,
    RebuildPairs,
    RebuildEntries,
    TruncateTo1,
    Take,
}
/// The first twelve are the small alphabet.
const EDITS: &[Edit] = &[
    Edit::Set(4),
    Edit::Set(5),
    Edit::Push(0),
    Edit::Push(3),
    Edit::Remove0,
    Edit::Swap,
    Edit::Rename,
    Edit::EntryValue,
    Edit::RebuildPairs,
    Edit::Insert0,
    Edit::Pop,
    Edit::Take,
    Edit::Set(0),
    Edit::Set(1),
    Edit::Set(2),
    Edit::Set(3),
    Edit::Set(6),
    Edit::Push(1),
    Edit::Push(2),
    Edit::Clear,
    Edit::Retain,
    Edit::RebuildEntries,
    Edit::TruncateTo1,
];
/// Ways to reach the place that is edited.
const FORMS: u8 = 5;

fn new_value(k: u8) -> (Value<'static>, M) {
    match k {
        0 => (Value::Null, M::Null),
        1 => (Value::from(true), M::Bool(true)),
        2 => (Value::Number(JsonNumber::from_json("12").unwrap()), M::Num("12".into())),
        3 => (Value::from("b"), M::Str("b".into())),
        4 => (Value::from(vec![Value::Null, Value::from(String::from("\n"))]), M::Arr(vec![M::Null, M::Str("\n".into())])),
        5 => (
            Value::from([("a", false), ("b", true)].into_iter().map(|(k, v)| Entry::new(k, v)).collect::<Object>()),
            M::Obj(vec![("a".into(), M::Bool(false)), ("b".into(), M::Bool(true))]),
        ),
        _ => (Value::from_json("\"\\u0061\"").unwrap(), M::Str("a".into())),
    }
}
fn new_key(k: u8) -> (JsonString<'static>, &'static str) {
    match k {
        0 => (JsonString::from("a"), "a"),
        1 => (JsonString::from(String::from("b")), "b"),
        2 => (JsonString::from_json("\"\\n\"").unwrap(), "\n"),
        _ => (JsonString::from_json("\"\\u0061\"").unwrap(), "a"),
    }
}

fn place<'v, 'a>(mut v: &'v mut Value<'a>, path: &[Step], form: u8) -> Option<&'v mut Value<'a>> {
    for s in path {
        v = match (*s, form) {
            (K(k), 0) => v.get_mut(k)?,
            (K(k), 1) => &mut v[k],
            (K(k), 2) => v.as_object_mut()?.get_mut(k)?,
            (K(k), 3) => &mut v.as_object_mut()?.get_entry_mut(k)?.value,
            (K(k), _) => &mut v.as_object_mut()?.iter_mut().find(|e| e.key == k)?.value,
            (I(i), 0) => v.get_index_mut(i)?,
            (I(i), 1) => &mut v[i],
            (I(i), 2) => v.as_array_mut()?.get_mut(i)?,
            (I(i), 3) => match v {
                Value::Array(a) => a.get_mut(i)?,
                _ => return None,
            },
            (I(i), _) => v.as_array_mut()?.iter_mut().nth(i)?,
        };
    }
    Some(v)
}
fn model_place<'v>(mut m: &'v mut M, path: &[Step]) -> Option<&'v mut M> {
    for s in path {
        m = match (*s, m) {
            (K(k), M::Obj(v)) => &mut v.iter_mut().find(|e| e.0 == k)?.1,
            (I(i), M::Arr(v)) => v.get_mut(i)?,
            _ => return None,
        };
    }
    Some(m)
}

fn edit_real(v: &mut Value<'static>, e: Edit) {
    if let Edit::Set(k) = e {
        *v = new_value(k).0;
        return;
    }
    if e == Edit::Take {
        let old = std::mem::replace(v, Value::Null);
        *v = Value::from(vec![old]);
        return;
    }
    if let Some(o) = v.as_object_mut() {
        match e {
            Edit::Push(k) => o.push(Entry::new(new_key(k).0, Value::Null)),
            Edit::Insert0 => o.insert(0, Entry::new("a", "in")),
            Edit::Remove0 if !o.is_empty() => {
                o.remove(0);
            }
            Edit::Pop => {
                o.pop();
            }
            Edit::Swap if o.len() > 1 => o.swap(0, 1),
            Edit::Clear => o.clear(),
            Edit::Rename => {
                if let Some(e) = o.get_entry_mut("a") {
                    e.key = JsonString::from("b");
                }
            }
            Edit::EntryValue => {
                if let Some(e) = o.get_entry_mut("b") {
                    e.value = Value::from(String::from("v"));
                }
            }
            Edit::Retain => o.retain(|e| e.key != "a"),
            Edit::RebuildPairs => {
                let old = std::mem::take(o);
                let mut old = old;
                *o = old.drain(..).rev().map(|e| (e.key, e.value)).collect();
            }
            Edit::RebuildEntries => {
                let mut old = std::mem::replace(o, Object::with_capacity(1));
                let cut = 1.min(old.len());
                o.extend(old.drain(cut..));
                *o = o.drain(..).chain(old.drain(..)).collect();
            }
            Edit::TruncateTo1 => o.truncate(1),
            _ => {}
        }
    } else if let Some(a) = v.as_array_mut() {
        match e {
            Edit::Push(k) => a.push(new_value(k).0),
            Edit::Insert0 => a.insert(0, Value::from("in")),
            Edit::Remove0 if !a.is_empty() => {
                a.remove(0);
            }
            Edit::Pop => {
                a.pop();
            }
            Edit::Swap if a.len() > 1 => a.swap(0, 1),
            Edit::Clear => a.clear(),
            Edit::TruncateTo1 => a.truncate(1),
            _ => {}
        }
    }
}
fn edit_model(m: &mut M, e: Edit) {
    if let Edit::Set(k) = e {
        *m = new_value(k).1;
        return;
    }
    if e == Edit::Take {
        let old = std::mem::replace(m, M::Null);
        *m = M::Arr(vec![old]);
        return;
    }
    match m {
        M::Obj(o) => match e {
            Edit::Push(k) => o.push((new_key(k).1.into(), M::Null)),
            Edit::Insert0 => o.insert(0, ("a".into(), M::Str("in".into()))),
            Edit::Remove0 if !o.is_empty() => {
                o.remove(0);
            }
            Edit::Pop => {
                o.pop();
            }
            Edit::Swap if o.len() > 1 => o.swap(0, 1),
            Edit::Clear => o.clear(),
            Edit::Rename => {
                if let Some(e) = o.iter_mut().find(|e| e.0 == "a") {
                    e.0 = "b".into();
                }
            }
            Edit::EntryValue => {
                if let Some(e) = o.iter_mut().find(|e| e.0 == "b") {
                    e.1 = M::Str("v".into());
                }
            }
            Edit::Retain => o.retain(|e| e.0 != "a"),
            Edit::RebuildPairs => o.reverse(),
            Edit::RebuildEntries if !o.is_empty() => o.rotate_left(1),
            Edit::TruncateTo1 => o.truncate(1),
            _ => {}
        },
        M::Arr(a) => match e {
            Edit::Push(k) => a.push(new_value(k).1),
            Edit::Insert0 => a.insert(0, M::Str("in".into())),
            Edit::Remove0 if !a.is_empty() => {
                a.remove(0);
            }
            Edit::Pop => {
                a.pop();
            }
            Edit::Swap if a.len() > 1 => a.swap(0, 1),
            Edit::Clear => a.clear(),
            Edit::TruncateTo1 => a.truncate(1),
            _ => {}
        },
        _ => {}
    }
}

fn panics<R>(f: impl FnOnce() -> R) -> bool {
    catch_unwind(AssertUnwindSafe(|| {
        f();
    }))
    .is_err()
}

const PROBES: &[&str] = &["a", "b", "\n", "", "aa", "A", "\\u0061", "a\n", "\u{e9}"];

type R = Result<(), String>;
fn ck(ok: bool, msg: impl FnOnce() -> String) -> R {
    if ok {
        Ok(())
    } else {
        Err(msg())
    }
}

/// Everything observable of `v` is what the model says. `root`: also the panicking forms.
fn observe(v: &mut Value<'_>, m: &M, probes: &[&str], root: bool) -> R {
    let kinds = (
        v.as_object().is_some(),
        v.as_array().is_some(),
        v.as_string().is_some(),
        v.as_number().is_some(),
        v.as_bool(),
        v.is_null(),
    );
    let want = (
        matches!(m, M::Obj(_)),
        matches!(m, M::Arr(_)),
        matches!(m, M::Str(_)),
        matches!(m, M::Num(_)),
        if let M::Bool(b) = m { Some(*b) } else { None },
        matches!(m, M::Null),
    );
    ck(kinds == want, || format!("type accessors {kinds:?} of {m:?}"))?;
    ck(v.as_object_mut().is_some() == want.0 && v.as_array_mut().is_some() == want.1, || format!("mutable type accessors of {m:?}"))?;
    if let M::Str(t) = m {
        let s = v.as_string().unwrap();
        ck(*s == **t && s.decoded().eq(t.chars()), || format!("string {s:?}, expected {t:?}"))?;
        let plain = v.as_str();
        ck(plain == s.as_str(), || format!("as_str {plain:?}"))?;
        if let Some(x) = plain {
            ck(x == t, || format!("as_str {x:?}, expected {t:?}"))?;
        }
    } else {
        ck(v.as_str().is_none(), || format!("as_str of {m:?}"))?;
    }
    if let M::Num(t) = m {
        ck(v.as_number().unwrap().source() == t, || format!("number {:?}, expected {t:?}", v.as_number()))?;
    }
    // Lookups by key: the first entry with that text, at the same address in every form.
    for key in probes {
        let at = match m {
            M::Obj(o) => o.iter().position(|e| e.0 == *key),
            _ => None,
        };
        let want = at.map(|i| &v.as_object().unwrap()[i].value as *const Value<'_> as usize);
        let got = [
            v.get(key).map(|x| x as *const Value<'_> as usize),
            v.get_mut(key).map(|x| x as *mut Value<'_> as usize),
            v.as_object().and_then(|o| o.get(key)).map(|x| x as *const Value<'_> as usize),
            v.as_object_mut().and_then(|o| o.get_mut(key)).map(|x| x as *mut Value<'_> as usize),
            v.as_object_mut().and_then(|o| o.get_entry_mut(key)).map(|x| &x.value as *const Value<'_> as usize),
        ];
        ck(got.iter().all(|g| *g == want), || {
            format!("lookups of {key:?} (get, get_mut, Object::get, get_mut, get_entry_mut) find {:?}, expected entry {at:?} of {m:?}", got.map(|g| (g.is_some(), g == want)))
        })?;
        if let Some(a) = want {
            ck(&v[*key] as *const Value<'_> as usize == a && &mut v[*key] as *mut Value<'_> as usize == a, || format!("index [{key:?}] of {m:?}"))?;
        } else if root && *key == "a" {
            ck(panics(|| &v["a"] as *const Value<'_> as usize), || format!("index of missing key of {m:?} does not panic"))?;
            ck(panics(|| &mut v["a"] as *mut Value<'_> as usize), || format!("mutable index of missing key of {m:?} does not panic"))?;
        }
    }
    let len = match m {
        M::Arr(a) => a.len(),
        _ => 0,
    };
    for i in (0..len + 2).chain([usize::MAX, usize::MAX / 2 + 1]) {
        let want = match (&*v, i < len) {
            (Value::Array(a), true) if i < a.len() => Some(&a[i] as *const Value<'_> as usize),
            _ => None,
        };
        let got = [
            v.get_index(i).map(|x| x as *const Value<'_> as usize),
            v.get_index_mut(i).map(|x| x as *mut Value<'_> as usize),
            v.as_array().and_then(|a| a.get(i)).map(|x| x as *const Value<'_> as usize),
            v.as_array_mut().and_then(|a| a.get_mut(i)).map(|x| x as *mut Value<'_> as usize),
        ];
        ck(got.iter().all(|g| *g == want), || format!("lookups of index {i} of {m:?}"))?;
        if let Some(a) = want {
            ck(&v[i] as *const Value<'_> as usize == a && &mut v[i] as *mut Value<'_> as usize == a, || format!("index [{i}] of {m:?}"))?;
        } else if root && i == len {
            ck(panics(|| &v[i] as *const Value<'_> as usize), || format!("index [{i}] of {m:?} does not panic"))?;
            ck(panics(|| &mut v[i] as *mut Value<'_> as usize), || format!("mutable index [{i}] of {m:?} does not panic"))?;
        }
    }
    match (v, m) {
        (Value::Array(a), M::Arr(b)) => {
            ck(a.len() == b.len(), || format!("{} elements, expected {}", a.len(), b.len()))?;
            for (v, m) in a.iter_mut().zip(b) {
                observe(v, m, probes, false)?;
            }
        }
        (Value::Object(o), M::Obj(b)) => {
            ck(o.len() == b.len(), || format!("{} entries, expected {}", o.len(), b.len()))?;
            for (e, (k, m)) in o.iter_mut().zip(b) {
                ck(e.key == k.as_str() && e.key.decoded().eq(k.chars()), || format!("key {:?}, expected {k:?}", e.key))?;
                observe(&mut e.value, m, probes, false)?;
            }
        }
        _ => {}
    }
    Ok(())
}

/// One operation: path, edit, form.
fn history(case: &[u8], w: &mut W) {
    let start = case[0] as usize;
    let mut v: Value<'static> = Value::from_json(STARTS[start]).expect("start document");
    let mut m = start_model(start);
    w.state(m.hash());
    for (n, op) in case[1..].chunks_exact(3).enumerate() {
        let (path, edit, form) = (PATHS[op[0] as usize], EDITS[op[1] as usize], op[2]);
        let before = m.hash();
        let want = model_place(&mut m, path);
        let got = if form == 1 {
            let p = catch_unwind(AssertUnwindSafe(|| place(&mut v, path, form).map(|p| p as *mut Value<'static>)));
            // SAFETY: points into v, which is not touched while the reference lives.
            p.unwrap_or(None).map(|p| unsafe { &mut *p })
        } else {
            place(&mut v, path, form)
        };
        match (got, want) {
            (Some(p), Some(q)) => {
                edit_real(p, edit);
                edit_model(q, edit);
            }
            (None, None) => {}
            (g, q) => {
                w.fail("place", format!("step {n}: {path:?} found {}, expected {}", g.is_some(), q.is_some()));
                return;
            }
        }
        w.edge(before, hash_bytes(0, op));
        w.state(m.hash());
    }
    w.traces += 1;
    if let Err(e) = observe(&mut v, &m, PROBES, true) {
        w.fail("observation", e);
    }
}

/// A list of string representations used as the keys of one object; looked up by every text.
fn lookup(case: &[u8], w: &mut W) {
    let mut rest = case;
    let mut keys = Vec::new();
    while let Some((n, r)) = rest.split_first() {
        let (a, b) = r.split_at(*n as usize);
        rest = b;
        match Repr::read(a) {
            Some(k) => keys.push(k),
            None => return,
        }
    }
    let made: Vec<(JsonString<'_>, Value<'_>)> = keys
        .iter()
        .filter_map(|k| k.make())
        .enumerate()
        .map(|(i, s)| (s, if i % 2 == 0 { Value::Null } else { Value::Boolean(true) }))
        .collect();
    if made.len() != keys.len() {
        return;
    }
    let texts: Vec<String> = keys.iter().map(|k| k.text.to_string()).collect();
    let m = M::Obj(texts.iter().enumerate().map(|(i, t)| (t.clone(), if i % 2 == 0 { M::Null } else { M::Bool(true) })).collect());
    let mut probes: Vec<&str> = texts.iter().map(String::as_str).collect();
    probes.extend(PROBES);
    w.state(keys.iter().fold(9, |h, k| mix(h, k.state())));
    w.edge(hash_bytes(1, case), 0);
    w.traces += 1;
    let mut v = Value::Object(made.into_iter().collect());
    if let Err(e) = observe(&mut v, &m, &probes, false) {
        w.fail("lookup", e);
    }
}

fn size_of(case: &[u8]) -> Option<(usize, usize)> {
    let n = u32::from_le_bytes(case.get(..4)?.try_into().ok()?);
    let at = u32::from_le_bytes(case.get(4..8)?.try_into().ok()?);
    Some((n as usize, at as usize))
}
fn size_case(n: usize, at: usize) -> [u8; 9] {
    let mut c = [b'S'; 9];
    c[1..5].copy_from_slice(&(n as u32).to_le_bytes());
    c[5..].copy_from_slice(&(at as u32).to_le_bytes());
    c
}

/// Objects and arrays of n members with the sought one anywhere.
fn sized(case: &[u8], w: &mut W) {
    let Some((n, at)) = size_of(case) else { return };
    let doc = format!("{{{}}}", (0..n).map(|i| if i == at { "\"\\u0061\":[1]".to_string() } else { format!("\"k{i}\":{i}") }).collect::<Vec<_>>().join(","));
    let m = M::Obj((0..n).map(|i| if i == at { ("a".into(), M::Arr(vec![M::Num("1".into())])) } else { (format!("k{i}"), M::Num(i.to_string())) }).collect());
    let mut v = Value::from_json(&doc).expect("object");
    let last = format!("k{}", n.saturating_sub(1));
    w.state(mix(n as u64, at as u64));
    w.traces += 2;
    if let Err(e) = observe(&mut v, &m, &["a", "k0", "k1", &last, "k"], false) {
        w.fail("sized", e);
    }
    if at < n {
        // An edit through a mutable lookup changes that place only.
        let was = m.get("a").is_some();
        if let Some(x) = v.get_mut("a") {
            *x = Value::Null;
        }
        let M::Obj(mut o) = m else { return };
        o[at].1 = M::Null;
        w.check(was, "sized", || "model".into());
        if let Err(e) = observe(&mut v, &M::Obj(o), &["a", "k0", &last], false) {
            w.fail("sized", format!("after an edit: {e}"));
        }
    }
    // An array of the same size, one element of which is changed through its index.
    let doc = format!("[{}]", (0..n).map(|i| if i == at { "[\"\\u0061\"]".to_string() } else { i.to_string() }).collect::<Vec<_>>().join(" ,"));
    let mut m: Vec<M> = (0..n).map(|i| if i == at { M::Arr(vec![M::Str("a".into())]) } else { M::Num(i.to_string()) }).collect();
    let mut v = Value::from_json(&doc).expect("array");
    if let Some(x) = v.get_index_mut(at) {
        *x = Value::Object(Object::new());
    }
    if at < n {
        m[at] = M::Obj(vec![]);
    }
    if let Err(e) = observe(&mut v, &M::Arr(m), &["a"], false) {
        w.fail("sized", format!("array: {e}"));
    }
}

/// Keys of about `n` bytes, nearly the same, in several representations; looked up and edited.
fn long_lookup(case: &[u8], w: &mut W) {
    let Some((n, order)) = size_of(case) else { return };
    let fill = "x".repeat(n);
    let mut keys: Vec<(String, &str)> =
        [("a", "P"), ("b", "P"), ("\n", "P"), ("", "B"), ("\u{e9}", "P"), ("\u{1f639}", "O"), ("y", "B")].iter().map(|(t, k)| (format!("{fill}{t}"), *k)).collect();
    keys.push((format!("z{fill}"), "P"));
    keys.push((format!("\n{fill}"), "P"));
    let l = keys.len();
    keys.rotate_left(order % l);
    if order >= l {
        keys.reverse();
    }
    let literals: Vec<String> = keys.iter().map(|(t, _)| format!("\"{}\"", t.replace('\n', "\\n").replace('\u{e9}', "\\u00E9"))).collect();
    let made: Object<'_> = keys
        .iter()
        .enumerate()
        .map(|(i, (t, k))| {
            let key = match *k {
                "P" => JsonString::from_json(&literals[i]).expect("literal"),
                "B" => JsonString::from(t.as_str()),
                _ => JsonString::from(t.clone()),
            };
            (key, Value::Boolean(i % 2 == 0))
        })
        .collect();
    let doc = format!(
        "{{{}}}",
        literals.iter().enumerate().map(|(i, l)| format!("{l}:{}", i % 2 == 0)).collect::<Vec<_>>().join(",")
    );
    let parsed = Value::from_json(&doc).expect("object");
    let mut m = M::Obj(keys.iter().enumerate().map(|(i, (t, _))| (t.clone(), M::Bool(i % 2 == 0))).collect());
    let shorter = "x".repeat(n.saturating_sub(1));
    let mut probes: Vec<&str> = keys.iter().map(|(t, _)| t.as_str()).collect();
    probes.extend([shorter.as_str(), "a", ""]);
    for (how, mut v) in [("built", Value::Object(made)), ("parsed", parsed)] {
        w.traces += 1;
        w.state(mix(n as u64, order as u64 + 77));
        if let Err(e) = observe(&mut v, &m, &probes, false) {
            w.fail("lookup", format!("{how}: {}", e.chars().take(3000).collect::<String>()));
        }
        if how == "parsed" {
            let at = order % l;
            let found = v.get_mut(&keys[at].0);
            w.check(found.is_some(), "lookup", || format!("parsed: key {at} not found"));
            if let Some(x) = found {
                *x = Value::Null;
            }
            let first = keys.iter().position(|k| k.0 == keys[at].0).unwrap_or(at);
            if let M::Obj(o) = &mut m {
                o[first].1 = M::Null;
            }
            if let Err(e) = observe(&mut v, &m, &probes, false) {
                w.fail("lookup", format!("after an edit: {}", e.chars().take(3000).collect::<String>()));
            }
        }
    }
}

/// Objects of `n` keys that form a pattern (sorted, equal, in runs, ...): every key, the texts
/// between and around them, in parsed and in built objects.
fn patterned(case: &[u8], w: &mut W) {
    let Some((n, pattern)) = size_of(case) else { return };
    let key = |i: usize| match pattern {
        0 => format!("k{i:05}"),              // ascending
        1 => format!("k{:05}", n - i),        // descending
        2 => format!("k{:05}", i / 2),        // ascending, each twice
        3 => format!("k{:05}", i / 7),        // ascending, in runs
        4 => "k".to_string(),                 // all equal
        5 => format!("k{:05}", i % 3),        // cyclic
        6 => "k".repeat(i % 50),              // by length
        7 => format!("{}k{i}", "\u{e9}".repeat(i % 3)),
        8 => format!("k{:05}", if i + 1 == n { 0 } else { i }), // the last is the first again
        9 => format!("k{:05}", (i * 7919) % n.max(1)), // shuffled
        10 => format!("k{:05}", if i == 0 { n } else { i }), // ascending but the first
        _ => format!("k{:05}\n", i ^ 1),      // escaped, swapped by pairs
    };
    let texts: Vec<String> = (0..n).map(key).collect();
    let m = M::Obj(texts.iter().enumerate().map(|(i, t)| (t.clone(), M::Num(i.to_string()))).collect());
    let literal = |t: &str| format!("\"{}\"", t.replace('\n', "\\n"));
    let doc = format!("{{{}}}", texts.iter().enumerate().map(|(i, t)| format!("{}:{i}", literal(t))).collect::<Vec<_>>().join(","));
    let numbers: Vec<String> = (0..n).map(|i| i.to_string()).collect();
    let built: Object<'_> = texts
        .iter()
        .enumerate()
        .map(|(i, t)| {
            let k = if i % 2 == 0 { JsonString::from(t.as_str()) } else { JsonString::from(t.clone()) };
            (k, Value::Number(JsonNumber::from_json(&numbers[i]).expect("number")))
        })
        .collect();
    let mut probes: Vec<String> = vec!["".into(), "k".into(), "k0".into(), "kkk".into(), "l".into(), "\u{e9}".into(), format!("k{n:05}")];
    let step = 1.max(n / 40);
    for t in texts.iter().step_by(step).chain(texts.iter().rev().take(3)) {
        probes.push(t.clone());
        probes.push(format!("{t}0"));
        let mut short = t.clone();
        short.pop();
        probes.push(short);
    }
    probes.sort();
    probes.dedup();
    let probes: Vec<&str> = probes.iter().map(String::as_str).collect();
    w.state(mix(n as u64, 0x9a00 + pattern as u64));
    for (how, mut v) in [("parsed", Value::from_json(&doc).expect("object")), ("built", Value::Object(built))] {
        w.traces += 1;
        if let Err(e) = observe(&mut v, &m, &probes, false) {
            w.fail("lookup", format!("{how}: {}", e.chars().take(2000).collect::<String>()));
        }
    }
}

fn judge(case: &[u8], w: &mut W) {
    match case.split_first() {
        Some((b'O', rest)) => patterned(rest, w),
        Some((b'K', rest)) => long_lookup(rest, w),
        Some((b'H', rest)) => history(rest, w),
        Some((b'L', rest)) => lookup(rest, w),
        Some((b'S', rest)) => sized(rest, w),
        _ => {}
    }
}

/// All histories of exactly `n` operations from every start.
fn histories(name: &str, paths: usize, edits: usize, forms: &'static [u8], n: usize) -> Family {
    let mut ops: Vec<[u8; 3]> = Vec::new();
    for p in 0..paths {
        for e in 0..edits {
            for f in forms {
                ops.push([p as u8, e as u8, *f]);
            }
        }
    }
    fn rec(ops: &[[u8; 3]], left: usize, buf: &mut Vec<u8>, sink: gen::Sink<'_>) {
        sink(buf);
        if left == 0 {
            return;
        }
        for o in ops {
            let n = buf.len();
            buf.extend(o);
            rec(ops, left - 1, buf, sink);
            buf.truncate(n);
        }
    }
    let mut tasks: Vec<Task> = Vec::new();
    for s in 0..STARTS.len() {
        for first in 0..ops.len() {
            let ops = ops.clone();
            tasks.push(gen::task(move |sink| {
                let mut buf = vec![b'H', s as u8];
                if first == 0 {
                    sink(&buf);
                }
                buf.extend(ops[first]);
                rec(&ops, n - 1, &mut buf, sink);
            }));
        }
    }
    gen::family(&format!("{name}: all histories of <={n} of {} operations from {} values", ops.len(), STARTS.len()), tasks)
}

fn lookups(n: usize, mut reps: Vec<Vec<u8>>) -> Family {
    reps.sort();
    reps.dedup();
    let total = reps.len();
    let mut tasks: Vec<Task> = Vec::new();
    for a in 0..total {
        let reps = reps.clone();
        tasks.push(gen::task(move |sink| {
            fn rec(reps: &[Vec<u8>], left: usize, buf: &mut Vec<u8>, sink: gen::Sink<'_>) {
                sink(buf);
                if left == 0 {
                    return;
                }
                for r in reps {
                    let n = buf.len();
                    buf.push(r.len() as u8);
                    buf.extend(r);
                    rec(reps, left - 1, buf, sink);
                    buf.truncate(n);
                }
            }
            let mut buf = vec![b'L', reps[a].len() as u8];
            buf.extend(&reps[a]);
            rec(&reps, n - 1, &mut buf, sink);
        }));
    }
    gen::family(&format!("objects with <={n} keys of {total} representations, looked up by every text"), tasks)
}

/// Two keys of the same length that differ in one place, at every place, and a prefix of them.
fn long_keys(tier: Tier) -> Family {
    let tasks = (1..=tier.pick(140usize, 240))
        .map(|len| {
            gen::task(move |sink| {
                for pos in 0..len {
                    let pad = |c: &str| format!("{}{c}{}", "x".repeat(pos), "x".repeat(len - pos - 1));
                    let (a, b) = (pad("a"), pad("b"));
                    for forms in [["P", "P", "P"], ["P\\n", "P\\u000a", "B\n"], ["B", "P", "O"], ["O", "B", "P"]] {
                        let mut buf = vec![b'L'];
                        for (f, k) in forms.iter().zip([&a, &b, &"x".repeat(len - 1)]) {
                            buf.push((f.len() + k.len()) as u8);
                            buf.extend(f.as_bytes());
                            buf.extend(k.as_bytes());
                        }
                        sink(&buf);
                    }
                }
            })
        })
        .collect();
    gen::family("long keys that differ in one place", tasks)
}

fn families(tier: Tier) -> Vec<Family> {
    let mut sizes: Vec<Task> = Vec::new();
    for n in 0..=tier.pick(70, 300) {
        sizes.push(gen::task(move |sink| {
            for at in 0..=n {
                sink(&size_case(n, at));
            }
        }));
    }
    // Around every power of two: sought near either end, in the middle, next to other powers, or absent.
    for shift in 6..=tier.pick(16, 18) {
        for n in (1usize << shift) - 1..=(1 << shift) + 2 {
            sizes.push(gen::task(move |sink| {
                let mut ats: Vec<usize> = vec![0, 1, n / 2, n - 2, n - 1, n];
                ats.extend((5..=shift).flat_map(|s| (1usize << s) - 2..=(1 << s) + 1).filter(|at| *at < n));
                ats.sort();
                ats.dedup();
                for at in ats {
                    sink(&size_case(n, at));
                }
            }));
        }
    }
    let long: Vec<Task> = gen::far_sizes(tier)
        .into_iter()
        .map(|n| {
            gen::task(move |sink| {
                for order in (0..18).step_by(if n > 5000 { 5 } else { 1 }) {
                    let mut c = size_case(n, order);
                    c[0] = b'K';
                    sink(&c);
                }
            })
        })
        .collect();
    let mut counts: Vec<usize> = (0..=tier.pick(40, 140)).collect();
    counts.extend((5..=tier.pick(10, 13)).flat_map(|s| (1usize << s) - 1..=(1 << s) + 1));
    counts.extend([100, 1000]);
    counts.sort();
    counts.dedup();
    let patterns: Vec<Task> = counts
        .into_iter()
        .map(|n| {
            gen::task(move |sink| {
                for pattern in 0..12 {
                    let mut c = size_case(n, pattern);
                    c[0] = b'O';
                    sink(&c);
                }
            })
        })
        .collect();
    vec![
        gen::family("objects whose keys form a pattern: sorted, repeated, in runs, shuffled", patterns),
        gen::family("objects with long keys that are nearly the same", long),
        histories("every form", PATHS.len(), EDITS.len(), &[0, 1, 2, 3, 4], 1),
        histories("wide", PATHS.len(), EDITS.len(), &[0, 3], 2),
        histories("index forms", 9, 12, &[1, 2], 2),
        histories("deep", 4, 12, &[0], 3),
        histories("deeper", tier.pick(2, 3), tier.pick(8, 9), &[0], tier.pick(4, 5)),
        lookups(2, jjmc::strs::reprs(tier.pick(2, 3), 2)),
        lookups(3, jjmc::strs::reprs(1, 1)),
        lookups(
            tier.pick(4, 5),
            ["P", "Pa", "P\\u0061", "Ba", "Oa", "P\\n", "B\n", "O\n", "P\\u000a", "P\u{e9}", "B\u{e9}", "P\\u00e9", "B", "Paa", "Ba\n", "B\\n"]
                .iter()
                .map(|s| s.as_bytes().to_vec())
                .collect(),
        ),
        gen::family("objects and arrays of every size and around powers of two, sought member anywhere", sizes),
        long_keys(tier),
        lookups(2, gen::TELLING.iter().map(|s| format!("P{s}").into_bytes()).collect()),
    ]
}

fn show(case: &[u8]) -> String {
    match case.split_first() {
        Some((b'H', rest)) if !rest.is_empty() => {
            let ops: Vec<String> = rest[1..]
                .chunks_exact(3)
                .map(|o| format!("{:?} at {:?} (form {} of {FORMS})", EDITS[o[1] as usize], PATHS[o[0] as usize], o[2]))
                .collect();
            format!("start {} then {}", STARTS[rest[0] as usize], ops.join("; "))
        }
        Some((b'S', rest)) if rest.len() == 8 => {
            let (n, at) = size_of(rest).unwrap_or_default();
            format!("object and array of {n} members, sought one at {at}")
        }
        Some((b'O', rest)) if rest.len() == 8 => {
            let (n, pattern) = size_of(rest).unwrap_or_default();
            format!("object of {n} keys in pattern {pattern}")
        }
        Some((b'K', rest)) if rest.len() == 8 => {
            let (n, order) = size_of(rest).unwrap_or_default();
            format!("objects with keys of about {n} bytes, in order {order}")
        }
        Some((b'L', mut rest)) => {
            let mut out = Vec::new();
            while let Some((n, r)) = rest.split_first() {
                let (a, b) = r.split_at((*n as usize).min(r.len()));
                rest = b;
                out.push(engine::show_bytes(a));
            }
            format!("object with keys {}", out.join(" | "))
        }
        _ => engine::show_bytes(case),
    }
}

fn main() {
    engine::main(Check {
        id: "C23",
        level: Level::ModelChecking,
        rule: "state = value of the list-of-entries model; transition = (state, edit operation through one accessor form); each trace performs a history of edits on a real Value and on the model and then compares every accessor, lookup form (by address) and index form with the model",
        assumptions: &["Vec's own operations, reached through Deref, are trusted"],
        families,
        judge,
        stack_mb: 0,
        show,
    })
}
