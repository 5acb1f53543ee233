//! C30: equality of values, objects, documents, nodes and tokens is equality of what they say.
use jjmc::engine::{self, Check, Family, Level, Tier, W};
use jjmc::gen;
use jjmc::pda::Cfg;
use jjmc::rp::{self, RVal};
use jjmc::util;
use justjson::doc::{Document, HeaplessDocument, Node};
use justjson::parser::{Token, Tokenizer};
use justjson::{Entry, JsonString, Object, Value};
use std::sync::Arc;

const CFG: Cfg = Cfg { trailing: true, limit: None, root_any: true };

/// The reference: same kinds, literals of numbers, texts of strings, elements and members in order.
fn same(a: &RVal, x: &[u8], b: &RVal, y: &[u8]) -> bool {
    let txt = |s: &[u8], r: &(usize, usize)| rp::decode(&s[r.0..r.1], util::bs()).expect("accepted");
    match (a, b) {
        (RVal::Null, RVal::Null) => true,
        (RVal::Bool(a), RVal::Bool(b)) => a == b,
        (RVal::Num(a), RVal::Num(b)) => x[a.0..a.1] == y[b.0..b.1],
        (RVal::Str(a), RVal::Str(b)) => txt(x, a) == txt(y, b),
        (RVal::Arr(a), RVal::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, x, b, y)),
        (RVal::Obj(a), RVal::Obj(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|((k, a), (l, b))| txt(x, k) == txt(y, l) && same(a, x, b, y))
        }
        _ => false,
    }
}

/// The same value put together in code, with owned and borrowed texts in turn.
fn built<'a>(v: &Value<'a>, texts: &'a [String], at: &mut usize) -> Value<'a> {
    let next = |at: &mut usize| {
        *at += 1;
        let s = &texts[*at - 1];
        if *at % 2 == 0 { JsonString::from(s.clone()) } else { JsonString::from(s.as_str()) }
    };
    match v {
        Value::Null => Value::Null,
        Value::Boolean(b) => Value::from(*b),
        Value::Number(n) => Value::Number(n.clone()),
        Value::String(_) => Value::from(next(at)),
        Value::Array(a) => Value::from(a.iter().map(|v| built(v, texts, at)).collect::<Vec<_>>()),
        Value::Object(o) => {
            let mut out = Object::new();
            for e in o.iter() {
                let k = next(at);
                out.push(Entry::new(k, built(&e.value, texts, at)));
            }
            Value::from(out)
        }
    }
}
fn texts(r: &RVal, src: &[u8], out: &mut Vec<String>) {
    let mut t = |r: &(usize, usize)| out.push(rp::decode(&src[r.0..r.1], util::bs()).expect("accepted"));
    match r {
        RVal::Str(r) => t(r),
        RVal::Arr(v) => v.iter().for_each(|v| texts(v, src, out)),
        RVal::Obj(v) => {
            for (k, v) in v {
                out.push(rp::decode(&src[k.0..k.1], util::bs()).expect("accepted"));
                texts(v, src, out);
            }
        }
        _ => {}
    }
}

/// Every operator form says the same as the reference.
fn eq<T: PartialEq>(w: &mut W, what: &str, a: &T, b: &T, want: bool) {
    w.traces += 1;
    #[allow(clippy::nonminimal_bool)]
    let got = (a == b, b == a, !(a != b), !(b != a));
    if got != (want, want, want, want) {
        w.fail(what, format!("{what}: (a==b, b==a, !(a!=b), !(b!=a)) = {got:?}, expected {want}"));
    }
}

fn judge(case: &[u8], w: &mut W) {
    let at = case.iter().position(|b| *b == 0xff).expect("pair");
    let (x, y) = (&case[..at], &case[at + 1..]);
    let (Some(a), Some(b)) = (rp::parse(x, &CFG), rp::parse(y, &CFG)) else { return };
    let want = same(&a, x, &b, y);
    let (s, t) = (util::shape_hash(&a), util::shape_hash(&b));
    w.state(s);
    w.state(t);
    w.edge(s, engine::mix(t, u64::from(want)));
    let pc = util::config(&CFG);
    let (Ok(va), Ok(vb)) = (Value::from_json_bytes_with_config(x, pc), Value::from_json_bytes_with_config(y, pc)) else {
        w.fail("rejected", "a well-formed document is rejected");
        return;
    };
    eq(w, "parsed values", &va, &vb, want);
    eq(w, "a value and itself", &va, &va, true);
    let (mut ta, mut tb) = (Vec::new(), Vec::new());
    texts(&a, x, &mut ta);
    texts(&b, y, &mut tb);
    let (ca, cb) = (built(&va, &ta, &mut 0), built(&vb, &tb, &mut 0));
    eq(w, "built values", &ca, &cb, want);
    eq(w, "a parsed and a built value", &va, &cb, want);
    eq(w, "a value and its rebuilt form", &ca, &va, true);
    if let (Value::Object(a), Value::Object(b)) = (&va, &cb) {
        eq(w, "objects", a, b, want);
        for (i, (e, f)) in a.iter().zip(b.iter()).enumerate() {
            let _ = i;
            let same_entry = e.key == f.key && e.value == f.value;
            eq(w, "entries", e, f, same_entry);
        }
    }
    if let (Value::Array(a), Value::Array(b)) = (&va, &cb) {
        eq(w, "arrays", a, b, want);
    }
    // Documents and their nodes
    let (Ok(da), Ok(db)) = (Document::from_json_bytes_with_config(x, pc), Document::from_json_bytes_with_config(y, pc)) else {
        w.fail("rejected", "a well-formed document is rejected");
        return;
    };
    eq(w, "documents", &da, &db, want);
    let (na, nb): (Vec<Node<'_>>, Vec<Node<'_>>) = (da.iter().collect(), db.iter().collect());
    eq(w, "node lists", &na, &nb, want);
    if na.len() <= 16 && nb.len() <= 16 {
        let (ha, hb) = (
            HeaplessDocument::<16>::from_json_bytes_with_config(x, pc),
            HeaplessDocument::<16>::from_json_bytes_with_config(y, pc),
        );
        if let (Ok(a), Ok(b)) = (&ha, &hb) {
            eq(w, "heapless documents", a, b, want);
        } else {
            w.fail("rejected", "a document of at most 16 nodes is rejected by a capacity of 16");
        }
        let (mut ra, mut rb) = (Vec::new(), Vec::new());
        rp::preorder(&a, &mut ra);
        rp::preorder(&b, &mut rb);
        for (i, p) in na.iter().enumerate() {
            for (j, q) in nb.iter().enumerate() {
                let (Some(r), Some(s)) = (ra.get(i), rb.get(j)) else { continue };
                eq(w, "nodes", p, q, same_node(r, x, s, y));
            }
        }
    }
    eq(w, "a document's value and the parsed value", &Value::from(da), &vb, want);
    drop(db);
    // Tokens
    let toks = |s: &'_ [u8]| -> Option<Vec<Token<'static>>> {
        // The tokens borrow from the case, which outlives this call.
        let s: &'static [u8] = unsafe { std::slice::from_raw_parts(s.as_ptr(), s.len()) };
        Tokenizer::for_json_bytes(s).collect::<Result<Vec<_>, _>>().ok()
    };
    if let (Some(p), Some(q)) = (toks(x), toks(y)) {
        let (rx, ry) = (lexed(x), lexed(y));
        let want = rx.len() == ry.len() && rx.iter().zip(&ry).all(|(a, b)| same_tok(a, x, b, y));
        eq(w, "token lists", &p, &q, want);
        if p.len() <= 12 && q.len() <= 12 && rx.len() == p.len() && ry.len() == q.len() {
            for (p, r) in p.iter().zip(&rx) {
                for (q, s) in q.iter().zip(&ry) {
                    eq(w, "tokens", p, q, same_tok(r, x, s, y));
                }
            }
        }
    }
}

fn same_node(a: &rp::RNode, x: &[u8], b: &rp::RNode, y: &[u8]) -> bool {
    use rp::RNode::*;
    match (a, b) {
        (Null, Null) => true,
        (Bool(a), Bool(b)) => a == b,
        (Num(a, b), Num(c, d)) => x[*a..*b] == y[*c..*d],
        (Str(a, b), Str(c, d)) => rp::decode(&x[*a..*b], util::bs()) == rp::decode(&y[*c..*d], util::bs()),
        (Obj(a), Obj(b)) | (Arr(a), Arr(b)) => a == b,
        _ => false,
    }
}

fn lexed(src: &[u8]) -> Vec<(rp::Tk, usize, usize)> {
    let mut v = Vec::new();
    let mut at = 0;
    while let rp::Lex::Tok { tk, start, end } = rp::lex(src, at) {
        v.push((tk, start, end));
        at = end;
    }
    v
}
fn same_tok(a: &(rp::Tk, usize, usize), x: &[u8], b: &(rp::Tk, usize, usize), y: &[u8]) -> bool {
    match (&a.0, &b.0) {
        (rp::Tk::Str(a, b), rp::Tk::Str(c, d)) => rp::decode(&x[*a..*b], util::bs()) == rp::decode(&y[*c..*d], util::bs()),
        (rp::Tk::Str(..), _) | (_, rp::Tk::Str(..)) => false,
        // All other tokens are equal exactly when they are spelled alike.
        _ => x[a.1..a.2] == y[b.1..b.2],
    }
}

const LEAF: &[&str] = &["1", "1.0", "-1", "\"a\"", "\"\\u0061\"", "\"1\"", "null", "true", "false", "\"\"", "[]", "{}"];
const KEY: &[&str] = &["\"a\"", "\"\\u0061\"", "\"b\"", "\"\""];

/// All values with at most two leaves below the root, over leaves and keys that are easily confused.
fn small(t: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<String> = LEAF.iter().map(|s| s.to_string()).collect();
    let one: Vec<String> = v.clone();
    for a in &one {
        v.push(format!("[{a}]"));
        v.push(format!("[[{a}]]"));
        for k in KEY {
            v.push(format!("{{{k}:{a}}}"));
        }
        v.push(format!("[{{\"a\":{a}}}]"));
        v.push(format!("{{\"a\":[{a}]}}"));
        v.push(format!("{{\"a\":{{\"a\":{a}}}}}"));
    }
    let few: Vec<&String> = if t { one.iter().collect() } else { [0, 1, 3, 4, 6, 10, 11].iter().map(|i| &one[*i]).collect() };
    for a in &few {
        for b in &few {
            v.push(format!("[{a},{b}]"));
            v.push(format!("[[{a}],{b}]"));
            v.push(format!("[{a},[{b}]]"));
            v.push(format!("[[{a},{b}]]"));
            for k in &KEY[..3] {
                for l in &KEY[..3] {
                    v.push(format!("{{{k}:{a},{l}:{b}}}"));
                }
            }
        }
    }
    v.into_iter().map(String::into_bytes).collect()
}

fn all_pairs(tier: Tier) -> Family {
    let all = Arc::new(small(tier == Tier::Thorough));
    let n = all.len();
    let tasks = (0..n)
        .map(|i| {
            let all = all.clone();
            gen::task(move |sink| {
                for b in all.iter() {
                    emit(sink, &all[i], b);
                }
            })
        })
        .collect();
    gen::family("all pairs of small values", tasks)
}

fn emit(sink: &mut dyn FnMut(&[u8]), a: &[u8], b: &[u8]) {
    let mut v = a.to_vec();
    v.push(0xff);
    v.extend(b);
    sink(&v);
}

/// Every tree up to a bound with its respelled form and with every change of one token.
fn edits(tier: Tier) -> Family {
    let mut tasks = Vec::new();
    for k in 1..=tier.pick(5, 6) {
        for chunk in gen::shapes(k, 3).chunks(50) {
            let chunk = chunk.to_vec();
            tasks.push(gen::task(move |sink| {
                for s in &chunk {
                    let d = gen::doc_of(s, &["1", "\"a\\u0062\"", "true"]);
                    let plain = d.plain();
                    emit(sink, &plain, &plain);
                    let spelled = gen::Doc { toks: d.toks.iter().map(|t| respell(t)).collect(), closers: d.closers.clone() };
                    emit(sink, &plain, &spelled.spaced(|_| b" ", false));
                    for i in 0..d.toks.len() {
                        for new in [&b"2"[..], b"\"ab\"", b"\"b\"", b"null", b"false", b"[]", b"{}", b"\"k\"", b"1,1", b"\"k\":1,\"k\"", b"[1]", b""] {
                            let mut e = d.clone();
                            e.toks[i] = new.to_vec();
                            emit(sink, &plain, &e.plain());
                        }
                    }
                    // one token fewer, two neighbours exchanged
                    for i in 0..d.toks.len() {
                        for j in i + 1..d.toks.len() {
                            let mut e = d.clone();
                            e.toks.swap(i, j);
                            emit(sink, &plain, &e.plain());
                            let mut e = d.clone();
                            e.toks.drain(i..=j);
                            emit(sink, &plain, &e.plain());
                        }
                    }
                }
            }));
        }
    }
    gen::family("every tree with every edit of its tokens", tasks)
}

/// A string literal with every character escaped.
fn respell(tok: &[u8]) -> Vec<u8> {
    if tok.first() != Some(&b'"') {
        return tok.to_vec();
    }
    let text = rp::decode(&tok[1..tok.len() - 1], util::bs()).expect("literal");
    let mut out = String::from("\"");
    for u in text.encode_utf16() {
        // U+0007 and \b: see util::bs
        out.push_str(&format!("\\u{u:04X}"));
    }
    out.push('"');
    out.into_bytes()
}

/// Containers of many sizes that differ in one place, or in length, or deep down.
fn large(tier: Tier) -> Family {
    let mut sizes: Vec<usize> = (0..=40).collect();
    for k in 6..=tier.pick(9, 13) {
        sizes.extend((1usize << k) - 1..=(1 << k) + 1);
    }
    let big = tier.pick(40, 140);
    let mut tasks = Vec::new();
    for n in sizes {
        tasks.push(gen::task(move |sink| {
            let arr = |f: &dyn Fn(usize) -> String, n: usize| format!("[{}]", (0..n).map(f).collect::<Vec<_>>().join(","));
            let obj = |f: &dyn Fn(usize) -> String, n: usize| format!("{{{}}}", (0..n).map(f).collect::<Vec<_>>().join(","));
            let el = |i: usize| ["1", "\"s\"", "[]", "null"][i % 4].to_string();
            let en = |i: usize| format!("\"k{}\":{}", i % 3, el(i));
            let (a, o) = (arr(&el, n), obj(&en, n));
            emit(sink, a.as_bytes(), a.as_bytes());
            emit(sink, o.as_bytes(), o.as_bytes());
            for m in [n + 1, n + 2, n * 2 + 1, n + 256] {
                for (x, y) in [(&a, arr(&el, m)), (&o, obj(&en, m))] {
                    emit(sink, x.as_bytes(), y.as_bytes());
                    emit(sink, y.as_bytes(), x.as_bytes());
                }
            }
            let places: Vec<usize> = if n <= big { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1] };
            for p in places {
                for new in ["2", "\"t\"", "[0]", "false", "\"\\u0073\""] {
                    let y = arr(&|i| if i == p { new.to_string() } else { el(i) }, n);
                    emit(sink, a.as_bytes(), y.as_bytes());
                    let y = obj(&|i| if i == p { format!("\"k{}\":{new}", i % 3) } else { en(i) }, n);
                    emit(sink, o.as_bytes(), y.as_bytes());
                }
                let y = obj(&|i| if i == p { format!("\"K{}\":{}", i % 3, el(i)) } else { en(i) }, n);
                emit(sink, o.as_bytes(), y.as_bytes());
                let y = obj(&|i| if i == p { format!("\"\\u006b{}\":{}", i % 3, el(i)) } else { en(i) }, n);
                emit(sink, o.as_bytes(), y.as_bytes());
            }
        }));
    }
    for depth in 1..=tier.pick(140, 300) {
        tasks.push(gen::task(move |sink| {
            for (o, c) in [("[", "]"), ("{\"a\":", "}"), ("[0,", "]"), ("[", ",0]"), ("{\"a\":[", "],\"b\":1}")] {
                let wrap = |x: &str, d: usize| format!("{}{x}{}", o.repeat(d), c.repeat(d)).into_bytes();
                for x in ["1", "\"a\"", "[]", "{}"] {
                    for y in ["1", "2", "\"\\u0061\"", "[]", "{}", "[1]"] {
                        emit(sink, &wrap(x, depth), &wrap(y, depth));
                    }
                    emit(sink, &wrap(x, depth), &wrap(x, depth + 1));
                    emit(sink, &wrap(x, depth + 1), &wrap(x, depth));
                }
            }
        }));
    }
    gen::family("large and deep values with one difference", tasks)
}

/// Numbers and strings that are nearly the same.
fn scalars(tier: Tier) -> Family {
    let nums = [
        "0", "-0", "0.0", "1", "1.0", "1.00", "1e0", "1E0", "1e+0", "10e-1", "1e1", "10", "-1", "100000000000000000000", "100000000000000000001",
        "9007199254740992", "9007199254740993", "0.1", "0.10", "1e400", "1e401", "-1e400", "1.0000000000000001",
    ];
    let mut all: Vec<String> = nums.iter().map(|s| s.to_string()).collect();
    let atoms = ["a", "\\u0061", "\\n", "\u{e9}", "\\u00e9", "\\u00E9", "/", "\\/", "\u{1f639}", "\\ud83d\\ude39"];
    let mut words = vec![String::new()];
    let mut last = words.clone();
    for _ in 0..tier.pick(2, 3) {
        last = last.iter().flat_map(|w| atoms.iter().map(move |a| format!("{w}{a}"))).collect();
        words.extend(last.iter().cloned());
    }
    all.extend(words.iter().map(|w| format!("\"{w}\"")));
    let all = Arc::new(all);
    let tasks = (0..all.len())
        .map(|i| {
            let all = all.clone();
            gen::task(move |sink| {
                for b in all.iter() {
                    let a = &all[i];
                    emit(sink, a.as_bytes(), b.as_bytes());
                    emit(sink, format!("[{a}]").as_bytes(), format!("[{b}]").as_bytes());
                    emit(sink, format!("{{\"k\":{a}}}").as_bytes(), format!("{{\"k\":{b}}}").as_bytes());
                    if a.starts_with('"') && b.starts_with('"') {
                        emit(sink, format!("{{{a}:1}}").as_bytes(), format!("{{{b}:1}}").as_bytes());
                    }
                }
            })
        })
        .collect();
    gen::family("all pairs of easily confused scalars", tasks)
}

fn families(tier: Tier) -> Vec<Family> {
    vec![all_pairs(tier), edits(tier), large(tier), scalars(tier)]
}

fn main() {
    engine::main(Check {
        id: "C30",
        level: Level::ModelChecking,
        rule: "states: distinct reference trees; transitions: distinct (tree, tree, verdict) triples; each trace is one pair of real values, documents, nodes or tokens compared in all operator forms and directions with the equality of the reference trees",
        assumptions: &["numbers are equal when their literals are, as the type's documentation of keeping the source implies"],
        families,
        judge,
        stack_mb: 0,
        show: engine::show_bytes,
    })
}
