//! C04: every entry point terminates normally on any bytes; results can be used and dropped.
use jjmc::engine::{self, Check, Family, Level, Tier, W};
use jjmc::pda::Cfg;
use jjmc::{gen, guard, util};
use justjson::doc::{Document, HeaplessDocument};
use justjson::parser::{ParseConfig, Parser, Tokenizer};
use justjson::{Error, JsonNumber, JsonString, Value};
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write;
use std::hash::{Hash, Hasher};

fn err<T>(w: &mut W, len: usize, name: &str, r: Result<T, Error>) -> Option<T> {
    w.traces += 1;
    match r {
        Ok(v) => Some(v),
        Err(e) => {
            if e.offset() > len {
                w.fail("offset-range", format!("{name}: {e:?}, input length {len}"));
            }
            let mut s = String::new();
            let _ = write!(s, "{e}{}{:?}", e.kind(), e);
            if s.is_empty() {
                w.fail("display", format!("{name}: empty error text"));
            }
            None
        }
    }
}

fn walk(v: &Value<'_>) -> usize {
    match v {
        Value::Array(a) => 1 + a.iter().map(walk).sum::<usize>(),
        Value::Object(o) => 1 + o.iter().map(|e| 1 + e.key.decoded().count() + walk(&e.value)).sum::<usize>(),
        Value::String(s) => {
            let mut h = DefaultHasher::new();
            s.hash(&mut h);
            let _ = s.cmp(s);
            let _ = (s.decoded_len(), s.len(), s.as_str(), s == s.decode_if_needed().as_str());
            1 + s.decoded().count() + s.as_json().count() + h.finish() as usize % 2
        }
        Value::Number(n) => {
            let _ = (n.as_f64(), n.as_f32(), n.as_u64(), n.as_i64(), n.as_u8(), n.as_i128());
            1
        }
        _ => 1,
    }
}

fn doc_use(d: &Document<'_>) {
    let mut n = 0;
    for node in d {
        n += usize::from(node == node.clone());
    }
    let mut i = d.iter();
    while i.clone().next().is_some() {
        i.skip_next_value();
        n += 1;
    }
    let mut i = d.iter();
    let v = i.next_value();
    i.skip_next_value();
    let _ = (i.next(), i.next_value(), v.is_some(), n);
}

fn tokens<const G: bool>(w: &mut W, mut t: Tokenizer<'_, G>, len: usize, peek: bool) {
    w.traces += 1;
    let mut last = 0;
    let mut n = 0;
    loop {
        if peek {
            let _ = t.peek();
        }
        let r = t.next();
        let at = t.offset();
        if at < last || at > len {
            w.fail("tokenizer-offset", format!("offset moved from {last} to {at}, input length {len}"));
        }
        last = at;
        match r {
            None => break,
            Some(Ok(tok)) => {
                let _ = tok.clone() == tok;
            }
            Some(Err(e)) => {
                err::<()>(w, len, "Tokenizer::next", Err(e));
            }
        }
        n += 1;
        if n > len + 8 {
            w.fail("tokenizer-loops", format!("{n} tokens from {len} bytes"));
            break;
        }
    }
    let _ = (t.next(), t.peek());
    if let Err(e) = t.next_or_eof() {
        err::<()>(w, len, "Tokenizer::next_or_eof", Err(e));
    }
}

/// Every execution is on a copy that ends at an unreadable page, and some also on one that starts
/// there, so that reading outside the input kills the process.
fn judge(doc: &[u8], w: &mut W) {
    util::trace_pda(doc, &Cfg { trailing: true, limit: Some(128), root_any: true }, w);
    guard::guarded(doc, false, |doc| all(doc, w));
    guard::guarded(doc, true, |doc| {
        err(w, doc.len(), "validate_json_bytes", Parser::validate_json_bytes(doc));
        tokens(w, Tokenizer::for_json_bytes(doc), doc.len(), true);
        if let Ok(s) = std::str::from_utf8(doc) {
            err(w, doc.len(), "validate_json", Parser::validate_json(s));
            tokens(w, Tokenizer::for_json(s), doc.len(), false);
            if let Some(v) = err(w, doc.len(), "JsonString::from_json", JsonString::from_json(s)) {
                let _ = (v.decoded().count(), v.as_json().count(), v == *"a");
            }
        }
    });
}

fn all(doc: &[u8], w: &mut W) {
    let text = std::str::from_utf8(doc).ok();
    let n = doc.len();
    let cfgs = [
        ParseConfig::new(),
        ParseConfig::strict().allowing_trailing_commas(),
        ParseConfig::new().with_recursion_limit(0),
        ParseConfig::new().with_recursion_limit(1).allowing_trailing_commas(),
        ParseConfig::new().with_recursion_limit(200),
    ];
    err(w, n, "validate_json_bytes", Parser::validate_json_bytes(doc));
    err(w, n, "HeaplessDocument<4>", HeaplessDocument::<4>::from_json_bytes(doc));
    if let Some(s) = text {
        err(w, n, "validate_json", Parser::validate_json(s));
        err(w, n, "JsonString::from_json", JsonString::from_json(s));
        err(w, n, "JsonNumber::from_json", JsonNumber::from_json(s));
    }
    for c in cfgs {
        err(w, n, "validate", Parser::validate_json_bytes_with_config(doc, c));
        let v = err(w, n, "Value", Value::from_json_bytes_with_config(doc, c));
        let d = err(w, n, "Document", Document::from_json_bytes_with_config(doc, c));
        if let Some(d) = &d {
            doc_use(d);
        }
        if let Some(v) = v {
            walk(&v);
            let out = v.to_json();
            if n < 3000 {
                let _ = (v.to_json_pretty(), format!("{v}{v:#}{v:?}"), out);
                if let Some(d) = d {
                    let dv = Value::from(d);
                    let _ = dv == v;
                }
            }
        }
        if let Some(s) = text {
            let a = err(w, n, "Value", Value::from_json_with_config(s, c));
            let b = err(w, n, "Document", Document::from_json_with_config(s, c));
            if let (Some(a), Some(b)) = (a, b) {
                let _ = a == Value::from(b);
            }
        }
    }
    for peek in [false, true] {
        tokens(w, Tokenizer::for_json_bytes(doc), n, peek);
        if let Some(s) = text {
            tokens(w, Tokenizer::for_json(s), n, peek);
        }
    }
}

/// Deep nesting under a recursion limit, closed, unclosed, wrongly closed.
fn deep(tier: Tier) -> Family {
    let mut sizes = vec![127usize, 128, 129, 199, 200, 201, 1000, 5000, 20000, 100_000];
    if tier == Tier::Thorough {
        sizes.extend([1_000_000, 4_000_000]);
    }
    let mut tasks = Vec::new();
    for n in sizes {
        for (o, c) in [("[", "]"), ("{\"a\":", "}"), ("[{\"a\":", "}]"), ("[[],", "]"), ("{\"x\":{},\"a\":", "}"), ("[1,", ",]"), (" [ ", " ] ")] {
            tasks.push(gen::task(move |sink| {
                let open = o.repeat(n);
                let close = c.repeat(n);
                sink(open.as_bytes());
                sink(format!("{open}0{close}").as_bytes());
                sink(format!("{open}{close}").as_bytes());
                sink(format!("{open}\"\\ud800").as_bytes());
                sink(close.as_bytes());
                sink(format!("{open}}}]").as_bytes());
            }));
        }
    }
    gen::family("deep nesting up to the largest sizes, limited recursion, 2 MiB stack", tasks)
}

/// Every pair of bytes that make sense together repeated many times.
fn repeats(tier: Tier) -> Family {
    let reps = tier.pick(vec![3usize, 130, 5000], vec![3, 130, 1000, 5000, 70_000]);
    let mut tasks = Vec::new();
    for a in 0..gen::CLASS.len() {
        let reps = reps.clone();
        tasks.push(gen::task(move |sink| {
            for b in gen::CLASS {
                for &n in &reps {
                    let v: Vec<u8> = [gen::CLASS[a], *b].iter().copied().cycle().take(n * 2).collect();
                    sink(&v);
                }
            }
        }));
    }
    gen::family("every pair of class bytes repeated", tasks)
}

fn families(tier: Tier) -> Vec<Family> {
    let mut v = gen::universe(tier, Cfg { trailing: true, limit: Some(128), root_any: true });
    v.push(gen::scalar_gaps(tier.pick(13, 1), tier.pick(61, 3)));
    v.push(deep(tier));
    v.push(repeats(tier));
    v
}

fn main() {
    engine::main(Check {
        id: "C04",
        level: Level::ModelChecking,
        rule: "states/transitions of the reference acceptor driven by the texts; each trace is one execution of an entry point that must return (no panic, abort, overflow, hang) with an in-range offset; results are traversed, printed, hashed, compared and dropped; workers have a 2 MiB stack, the input lies next to unreadable pages, and arithmetic-overflow and unsafe-precondition checks are on",
        assumptions: &["recursion limits up to 200 with 2 MiB of stack", "a case that makes no progress for 30 s counts as non-terminating"],
        families,
        judge,
        stack_mb: 2,
        show: engine::show_bytes,
    })
}
