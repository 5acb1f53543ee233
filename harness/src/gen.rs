//! Generators: each enumerates a finite family of cases completely.

use crate::engine::{Family, Task, Tier};
use crate::pda::{is_ws, Cfg, Cls, Frame, Num, Pda, Ph, StrSt, KEYWORDS};
use std::collections::{HashMap, VecDeque};
use std::sync::Arc;

pub type Sink<'a> = &'a mut dyn FnMut(&[u8]);

pub fn task(f: impl Fn(Sink<'_>) + Send + Sync + 'static) -> Task {
    Box::new(f)
}
pub fn family(name: &str, tasks: Vec<Task>) -> Family {
    Family { name: name.into(), tasks }
}

/// A shortest text that completes a live acceptor state to an accepted text.
pub fn completion(p: &Pda, cfg: &Cfg) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::new();
    match p.ph {
        Ph::RootStart if !cfg.root_any => v.extend(b"[]"),
        Ph::RootStart | Ph::ArrNext | Ph::ObjVal => v.extend(b"0"),
        Ph::ArrFirst | Ph::ObjFirst | Ph::After => {}
        Ph::ObjNext => v.extend(b"\"\":0"),
        Ph::Colon => v.extend(b":0"),
        Ph::Lit(k, n) => v.extend(&KEYWORDS[k as usize][n as usize..]),
        Ph::Num(Num::Minus | Num::Dot | Num::E | Num::ESign) => v.push(b'1'),
        Ph::Num(_) => {}
        Ph::Str(key, st) => {
            match st {
                StrSt::Norm => {}
                StrSt::Esc => v.push(b'n'),
                StrSt::U(n, Cls::High) => {
                    v.extend(&b"0000"[n as usize..]);
                    v.extend(b"\\udc00");
                }
                StrSt::U(n, _) => v.extend(&b"0041"[n as usize..]),
                StrSt::NeedBackslash => v.extend(b"\\udc00"),
                StrSt::NeedU => v.extend(b"udc00"),
                StrSt::Low(n) => v.extend(&b"dc00"[n as usize..]),
                StrSt::Utf(n, lo, _) => {
                    v.push(lo);
                    for _ in 1..n {
                        v.push(0x80);
                    }
                }
            }
            v.push(b'"');
            if key {
                v.extend(b":0");
            }
        }
    }
    for f in p.stack.iter().rev() {
        v.push(if *f == Frame::Arr { b']' } else { b'}' });
    }
    v
}

/// All acceptor states with at most `depth` open containers, each with a shortest access text.
pub fn pda_states(cfg: &Cfg, depth: usize) -> Vec<(Pda, Vec<u8>)> {
    let mut seen: HashMap<Pda, ()> = HashMap::new();
    let mut out = Vec::new();
    let mut queue = VecDeque::new();
    let start = Pda::new();
    seen.insert(start.clone(), ());
    queue.push_back((start, Vec::new()));
    while let Some((p, w)) = queue.pop_front() {
        for b in 0..=255u8 {
            let mut q = p.clone();
            if q.step(b, cfg).is_ok() && q.stack.len() <= depth && !seen.contains_key(&q) {
                seen.insert(q.clone(), ());
                let mut w = w.clone();
                w.push(b);
                queue.push_back((q, w));
            }
        }
        out.push((p, w));
    }
    out
}

/// Bytes that represent every lexical class.
pub const CLASS: &[u8] = b"\"\\/bfnrtualseE019dDcC-+. \n\t\r{}[]:,x\x00\x1f\x7f\x80\xbf\xc2\xe0\xed\xf0\xf4\xff";

/// Transition cover of the acceptor: for every state (access text s) and every byte b: s b, s b
/// completed, and if b is live every class byte c after it: s b c completed. Dead bytes are also
/// followed by the completion of the state before (as if they had been ignored) and by one more
/// class byte.
pub fn cover(cfg: Cfg, depth: usize, two: bool) -> Family {
    let states = pda_states(&cfg, depth);
    let mut tasks = Vec::new();
    for (p, s) in states {
        tasks.push(task(move |sink| {
            let mut buf = Vec::new();
            let base = completion(&p, &cfg);
            sink(&s);
            for b in 0..=255u8 {
                buf.clear();
                buf.extend(&s);
                buf.push(b);
                sink(&buf);
                let n = buf.len();
                let mut q = p.clone();
                if q.step(b, &cfg).is_ok() {
                    let fin = completion(&q, &cfg);
                    if !fin.is_empty() {
                        buf.extend(&fin);
                        sink(&buf);
                    }
                    if two {
                        for c in CLASS {
                            buf.truncate(n);
                            buf.push(*c);
                            let mut r = q.clone();
                            if r.step(*c, &cfg).is_ok() {
                                buf.extend(completion(&r, &cfg));
                                sink(&buf);
                            } else {
                                sink(&buf);
                                if !fin.is_empty() {
                                    buf.extend(&fin);
                                    sink(&buf);
                                }
                            }
                        }
                    }
                } else {
                    if !base.is_empty() {
                        buf.extend(&base);
                        sink(&buf);
                    }
                    for tail in [&b"\""[..], b"]", b"}", b"0", b" ", b"\"]", b"\":0}", b",0]"] {
                        buf.truncate(n);
                        buf.extend(tail);
                        sink(&buf);
                    }
                }
            }
        }));
    }
    family(&format!("acceptor transition cover, depth<={depth}"), tasks)
}

fn rec_words(
    alpha: &[Vec<u8>],
    left: usize,
    buf: &mut Vec<u8>,
    suffix: &[u8],
    sink: &mut dyn FnMut(&[u8]),
) {
    let n = buf.len();
    buf.extend(suffix);
    sink(buf);
    buf.truncate(n);
    if left == 0 {
        return;
    }
    for a in alpha {
        buf.extend(a);
        rec_words(alpha, left - 1, buf, suffix, sink);
        buf.truncate(n);
    }
}

/// All words of at most `max` symbols, between `prefix` and `suffix`.
pub fn words(name: &str, alpha: &[Vec<u8>], max: usize, prefix: &[u8], suffix: &[u8]) -> Family {
    let alpha: Arc<Vec<Vec<u8>>> = Arc::new(alpha.to_vec());
    let (prefix, suffix) = (prefix.to_vec(), suffix.to_vec());
    let mut tasks = Vec::new();
    let split = max.min(2);
    {
        let (a, p, s) = (alpha.clone(), prefix.clone(), suffix.clone());
        let short = if max > split { split - 1 } else { max };
        tasks.push(task(move |sink| {
            let mut buf = p.clone();
            rec_words(&a, short, &mut buf, &s, sink);
        }));
    }
    if max > split {
        for i in 0..alpha.len() {
            for j in 0..alpha.len() {
                let (a, p, s) = (alpha.clone(), prefix.clone(), suffix.clone());
                tasks.push(task(move |sink| {
                    let mut buf = p.clone();
                    buf.extend(&a[i]);
                    buf.extend(&a[j]);
                    rec_words(&a, max - 2, &mut buf, &s, sink);
                }));
            }
        }
    }
    family(&format!("{name}, <={max} symbols of {}", alpha.len()), tasks)
}

pub fn singles(bytes: &[u8]) -> Vec<Vec<u8>> {
    bytes.iter().map(|b| vec![*b]).collect()
}

pub fn all_bytes(max: usize) -> Family {
    words("all byte strings", &singles(&(0..=255).collect::<Vec<u8>>()), max, b"", b"")
}
pub fn class_bytes(max: usize) -> Family {
    words("class byte strings", &singles(CLASS), max, b"", b"")
}

pub const TOKENS: &[&[u8]] =
    &[b"{", b"}", b"[", b"]", b",", b":", b"\"a\"", b"1", b"null", b" ", b"true"];

/// Token sequences: every sequence whose proper prefixes are viable (in the given option
/// setting), with every one-token extension, alone and completed.
pub fn token_trie(cfg: Cfg, max: usize) -> Family {
    fn rec(p: &Pda, left: usize, buf: &mut Vec<u8>, cfg: &Cfg, sink: &mut dyn FnMut(&[u8])) {
        let n = buf.len();
        sink(buf);
        buf.extend(completion(p, cfg));
        if buf.len() > n {
            sink(buf);
        }
        buf.truncate(n);
        if left == 0 {
            return;
        }
        for t in TOKENS {
            let mut q = p.clone();
            buf.extend(*t);
            if t.iter().all(|b| q.step(*b, cfg).is_ok()) {
                rec(&q, left - 1, buf, cfg, sink);
            } else {
                sink(buf);
                buf.extend(completion(p, cfg));
                sink(buf);
            }
            buf.truncate(n);
        }
    }
    // Split by viable prefixes of three tokens.
    let mut prefixes: Vec<(Pda, Vec<u8>, usize)> = vec![(Pda::new(), Vec::new(), 0)];
    let mut tasks: Vec<Task> = Vec::new();
    let mut shallow: Vec<Vec<u8>> = Vec::new();
    for _ in 0..3.min(max) {
        let mut next = Vec::new();
        for (p, w, n) in &prefixes {
            shallow.push(w.clone());
            let mut done = w.clone();
            done.extend(completion(p, &cfg));
            shallow.push(done);
            for t in TOKENS {
                let mut q = p.clone();
                let mut v = w.clone();
                v.extend(*t);
                if t.iter().all(|b| q.step(*b, &cfg).is_ok()) {
                    next.push((q, v, n + 1));
                } else {
                    shallow.push(v.clone());
                    v.extend(completion(p, &cfg));
                    shallow.push(v);
                }
            }
        }
        prefixes = next;
    }
    tasks.push(task(move |sink| {
        for w in &shallow {
            sink(w);
        }
    }));
    for (p, w, n) in prefixes {
        tasks.push(task(move |sink| {
            let mut buf = w.clone();
            rec(&p, max - n, &mut buf, &cfg, sink);
        }));
    }
    family(&format!("token sequences, <={max} tokens"), tasks)
}

/// Well-formed pieces of string content.
pub fn good_atoms() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [
        "a", " ", "/", "\u{7f}", "u", "\u{e9}", "\u{80}", "\u{7ff}", "\u{800}", "\u{25ef}",
        "\u{d7ff}", "\u{e000}", "\u{ffff}", "\u{10000}", "\u{1f639}", "\u{10ffff}", "\\\"", "\\\\",
        "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0041", "\\u00e9", "\\u00C9", "\\u0000",
        "\\u001f", "\\u0007", "\\u0008", "\\u005c", "\\u0022", "\\u07ff", "\\u0800", "\\u25eF",
        "\\uFFFF", "\\ud7ff", "\\uE000", "\\ud83d\\ude39", "\\uD800\\uDC00", "\\uDBFF\\uDFFF",
        "\\ud840\\udc00", "\\uda3c\\udfe1",
    ]
    .iter()
    .map(|s| s.as_bytes().to_vec())
    .collect();
    v.dedup();
    v
}

/// Broken or context-dependent pieces.
pub fn bad_atoms() -> Vec<Vec<u8>> {
    [
        &b"\\ud800"[..], b"\\udc00", b"\\uDBFF", b"\\udfff", b"\\u", b"\\u0", b"\\u00", b"\\u004",
        b"\\u00g1", b"\\ug000", b"\\x", b"\\", b"\"", b"\x00", b"\x1f", b"\n", b"\x80", b"\xbf",
        b"\xc2", b"\xc0\xaf", b"\xe0\x80\x80", b"\xe0\xa0", b"\xed\xa0\x80", b"\xf0\x80\x80\x80",
        b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xff", b"\xf0\x9f\x98",
    ]
    .iter()
    .map(|s| s.to_vec())
    .collect()
}

pub fn all_atoms() -> Vec<Vec<u8>> {
    let mut v = good_atoms();
    v.extend(bad_atoms());
    v
}

/// Every special atom at every position of strings of every length up to `max`, so that faults
/// that depend on the position in the string (chunked scanning) are met.
pub fn positions(name: &str, atoms: Vec<Vec<u8>>, max: usize, prefix: &'static [u8], suffix: &'static [u8]) -> Family {
    let mut tasks = Vec::new();
    for atom in atoms {
        tasks.push(task(move |sink| {
            let mut buf: Vec<u8> = Vec::new();
            for len in 0..=max {
                for pos in 0..=len {
                    buf.clear();
                    buf.extend(prefix);
                    buf.resize(buf.len() + pos, b'a');
                    buf.extend(&atom);
                    buf.resize(buf.len() + len - pos, b'a');
                    buf.extend(suffix);
                    sink(&buf);
                }
            }
        }));
    }
    family(&format!("{name}: every atom at every position, length<={max}"), tasks)
}

pub const NUM_ALPHA: &[u8] = b"-+019.eE";

/// All words over the number alphabet in several contexts.
pub fn numbers(max: usize) -> Vec<Family> {
    [(&b""[..], &b""[..]), (b"[", b"]"), (b"{\"a\":", b"}"), (b"[0,", b",1]")]
        .iter()
        .enumerate()
        .map(|(i, (p, s))| {
            let m = if i == 0 { max } else { max - 1 };
            words(
                &format!("number alphabet in {}_{}", String::from_utf8_lossy(p), String::from_utf8_lossy(s)),
                &singles(NUM_ALPHA),
                m,
                p,
                s,
            )
        })
        .collect()
}

pub fn pump_sizes(tier: Tier) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=140).collect();
    for b in [256usize, 512, 1024, 4096] {
        v.extend(b - 2..=b + 2);
    }
    v.extend([300, 1000, 65535, 65536, 65537]);
    if tier == Tier::Thorough {
        v.extend(141..=600);
        for b in [2048usize, 8192, 16384, 32768, 131072, 262144] {
            v.extend(b - 2..=b + 2);
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

fn rep(s: &[u8], n: usize) -> Vec<u8> {
    s.iter().copied().cycle().take(s.len() * n).collect()
}
fn cat(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}

/// Repeated constructs at lengths 0, 1, 2, ... and around powers of two.
pub fn pumps(tier: Tier) -> Family {
    let sizes = pump_sizes(tier);
    let mut tasks = Vec::new();
    for chunk in sizes.chunks(3) {
        let chunk = chunk.to_vec();
        tasks.push(task(move |sink| {
            for &n in &chunk {
                for atom in ["a", "\\n", "\\u0041", "\u{e9}", "\u{25ef}", "\u{1f639}", "\\ud83d\\ude39", "a\\\"", "\\\\", " "] {
                    let body = rep(atom.as_bytes(), n);
                    let s = cat(&[b"\"", &body, b"\""]);
                    sink(&s);
                    if n <= 5000 {
                        sink(&cat(&[b"[", &s, b",", &s, b"]"]));
                        sink(&cat(&[b"{", &s, b":", &s, b",", &s, b":null}"]));
                        sink(&s[..s.len() - 1]);
                        for tail in [&b"\\"[..], b"\\u", b"\\u00", b"\\q", b"\x01", b"\xff", b"\xe2\x97", b"\\ud800", b"\\n", b"\xc3\xa9", b"\\u00e9", b"\\udc00", b"\\u12x4"] {
                            sink(&cat(&[b"\"", &body, tail, b"\""]));
                            sink(&cat(&[b"\"", tail, &body, b"\""]));
                        }
                    }
                }
                for d in [b"0", b"1", b"9"] {
                    let ds = rep(d, n);
                    for (p, s) in [("", ""), ("-", ""), ("0.", ""), ("1e", ""), ("1E-", ""), ("1", ".5e+1"), ("-1.", "e1"), ("1.0e", ".")] {
                        sink(&cat(&[p.as_bytes(), &ds, s.as_bytes()]));
                        if n <= 300 {
                            sink(&cat(&[b"[", p.as_bytes(), &ds, s.as_bytes(), b"]"]));
                        }
                    }
                }
                for w in [&b" "[..], b"\n", b"\t\r\n ", b"\r"] {
                    let w = rep(w, n);
                    sink(&cat(&[&w, b"0", &w]));
                    sink(&cat(&[&w, b"[", &w, b"1", &w, b",", &w, b"\"x\"", &w, b"]", &w]));
                    sink(&cat(&[&w, b"{", &w, b"\"k\"", &w, b":", &w, b"{", &w, b"}", &w, b"}", &w]));
                    sink(&cat(&[&w]));
                    sink(&cat(&[b"[1", &w]));
                    sink(&cat(&[b"1", &w, b"x"]));
                }
                if n > 0 {
                    for v in ["0", "[]", "{}", "\"\"", "null", "true", "[[]]", "{\"a\":{}}"] {
                        let list = rep(cat(&[v.as_bytes(), b","]).as_slice(), n);
                        sink(&cat(&[b"[", &list[..list.len() - 1], b"]"]));
                        let obj = rep(cat(&[b"\"k\":", v.as_bytes(), b","]).as_slice(), n);
                        sink(&cat(&[b"{", &obj[..obj.len() - 1], b"}"]));
                        if n <= 300 {
                            sink(&cat(&[b"[", &list, b"]"]));
                            sink(&cat(&[b"{", &obj, b"}"]));
                            sink(&cat(&[b"[", &list]));
                        }
                    }
                }
                if n <= 300 {
                    for (o, c) in [("[", "]"), ("{\"a\":", "}"), ("[{\"a\":", "}]"), ("{\"a\":[", "]}"), ("[0,", "]"), ("{\"b\":[],\"a\":", ",\"c\":1}"), ("[{},", ",{}]")] {
                        let (o, c) = (rep(o.as_bytes(), n), rep(c.as_bytes(), n));
                        for mid in ["", "0", "[]", "{}", "[[]]", "x"] {
                            sink(&cat(&[&o, mid.as_bytes(), &c]));
                            sink(&cat(&[b"[[],", &o, mid.as_bytes(), &c, b"]"]));
                            sink(&cat(&[b"{\"x\":{},\"y\":", &o, mid.as_bytes(), &c, b"}"]));
                        }
                        sink(&o);
                        sink(&cat(&[&o, b"0"]));
                        sink(&cat(&[&o, b"0", &c, b"]"]));
                        sink(&cat(&[&o, b"0", &c, b"}"]));
                    }
                }
            }
        }));
    }
    family("pumped constructs", tasks)
}

pub const SEEDS: &[&str] = &[
    r#"{"a":1,"b":[true,null,"x\n"],"c":{"d":-0.5e+3}}"#,
    r#" [ 1 , [ ] , { } , "\u00e9\ud83d\ude39" , false ] "#,
    r#"[{"k":"v","k":"w"},[[[0]]],"",-1E-9]"#,
    "{\"\u{e9}\u{25ef}\":\"\u{1f639}\",\"\\\\\\\"\\/\":[\"\\b\\f\\n\\r\\t\"]}",
    "\t{\r\n\"a\" : [ 10.25 , 0 ] ,\n\"b\" : { \"c\" : [ ] } }\n",
    r#""plain \u0041 text \\ end""#,
    r#"[0,1e5,-2.50,true,false,null,{"z":{"y":{"x":[]}}}]"#,
    r#"{"":"","aaaaaaaaaaaaaaaa":"bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb"}"#,
];

/// Every single-byte replacement, insertion and deletion, and every truncation, of seed texts;
/// with `pairs`, also every pair of replacements by structural bytes.
pub fn mutations(pairs: bool) -> Family {
    let mut tasks = Vec::new();
    for s in SEEDS {
        let s = s.as_bytes();
        for pos in 0..=s.len() {
            tasks.push(task(move |sink| {
                sink(&s[..pos]);
                let mut buf = Vec::new();
                for b in 0..=255u8 {
                    buf.clear();
                    buf.extend(&s[..pos]);
                    buf.push(b);
                    let n = buf.len();
                    buf.extend(&s[pos..]);
                    sink(&buf);
                    if pos < s.len() {
                        buf.truncate(n);
                        buf.extend(&s[pos + 1..]);
                        sink(&buf);
                    }
                }
                if pos < s.len() {
                    // delete 1..4 bytes, duplicate 1..4 bytes
                    for k in 1..=4 {
                        let e = (pos + k).min(s.len());
                        sink(&cat(&[&s[..pos], &s[e..]]));
                        sink(&cat(&[&s[..e], &s[pos..]]));
                    }
                }
                if pairs && pos < s.len() {
                    for p2 in pos + 1..s.len() {
                        for a in CLASS {
                            for b in CLASS {
                                buf.clear();
                                buf.extend(s);
                                buf[pos] = *a;
                                buf[p2] = *b;
                                sink(&buf);
                            }
                        }
                    }
                }
            }));
        }
    }
    family(if pairs { "single and paired mutations of seed texts" } else { "single mutations of seed texts" }, tasks)
}

/// A generated document: significant tokens, and after which of them a trailing comma may go.
#[derive(Clone)]
pub struct Doc {
    pub toks: Vec<Vec<u8>>,
    /// index of closing tokens of non-empty containers
    pub closers: Vec<usize>,
}

#[derive(Clone, Debug)]
pub enum Shape {
    Leaf(usize),
    Arr(Vec<Shape>),
    Obj(Vec<Shape>),
}

/// All ordered trees with exactly n value nodes, leaves from `leaves` kinds, containers of both
/// kinds.
pub fn shapes(n: usize, leaves: usize) -> Vec<Shape> {
    fn forests(n: usize, leaves: usize, memo: &mut HashMap<usize, Vec<Vec<Shape>>>) -> Vec<Vec<Shape>> {
        if n == 0 {
            return vec![Vec::new()];
        }
        if let Some(v) = memo.get(&n) {
            return v.clone();
        }
        let mut out = Vec::new();
        for first in 1..=n {
            for t in trees(first, leaves, memo) {
                for rest in forests(n - first, leaves, memo) {
                    let mut v = vec![t.clone()];
                    v.extend(rest);
                    out.push(v);
                }
            }
        }
        memo.insert(n, out.clone());
        out
    }
    fn trees(n: usize, leaves: usize, memo: &mut HashMap<usize, Vec<Vec<Shape>>>) -> Vec<Shape> {
        let mut out = Vec::new();
        if n == 1 {
            out.extend((0..leaves).map(Shape::Leaf));
        }
        for f in forests(n - 1, leaves, memo) {
            out.push(Shape::Arr(f.clone()));
            out.push(Shape::Obj(f));
        }
        out
    }
    trees(n, leaves, &mut HashMap::new())
}

pub const KEYS: &[&str] = &["\"k\"", "\"k\"", "\"\\u006b\"", "\"\"", "\"\u{f1}\\n\"", "\"key two\""];

pub fn doc_of(shape: &Shape, leaves: &[&str]) -> Doc {
    fn go(s: &Shape, leaves: &[&str], d: &mut Doc, key: &mut usize) {
        let tok = |t: &str, d: &mut Doc| d.toks.push(t.as_bytes().to_vec());
        match s {
            Shape::Leaf(i) => tok(leaves[*i], d),
            Shape::Arr(v) => {
                tok("[", d);
                for (i, s) in v.iter().enumerate() {
                    if i > 0 {
                        d.toks.push(b",".to_vec());
                    }
                    go(s, leaves, d, key);
                }
                if !v.is_empty() {
                    d.closers.push(d.toks.len());
                }
                d.toks.push(b"]".to_vec());
            }
            Shape::Obj(v) => {
                tok("{", d);
                for (i, s) in v.iter().enumerate() {
                    if i > 0 {
                        d.toks.push(b",".to_vec());
                    }
                    d.toks.push(KEYS[*key % KEYS.len()].as_bytes().to_vec());
                    *key += 1;
                    d.toks.push(b":".to_vec());
                    go(s, leaves, d, key);
                }
                if !v.is_empty() {
                    d.closers.push(d.toks.len());
                }
                d.toks.push(b"}".to_vec());
            }
        }
    }
    let mut d = Doc { toks: Vec::new(), closers: Vec::new() };
    go(shape, leaves, &mut d, &mut 0);
    d
}

impl Doc {
    pub fn plain(&self) -> Vec<u8> {
        self.toks.concat()
    }
    /// `fill(i)` is put before token i (and after the last one, for i = number of tokens).
    pub fn spaced(&self, fill: impl Fn(usize) -> &'static [u8], trailing: bool) -> Vec<u8> {
        let mut v = Vec::new();
        for (i, t) in self.toks.iter().enumerate() {
            v.extend(fill(i));
            if trailing && self.closers.contains(&i) {
                v.extend(b",");
                v.extend(fill(i));
            }
            v.extend(t);
        }
        v.extend(fill(self.toks.len()));
        v
    }
}

pub const LEAVES: &[&str] = &["1", "\"a\\u0062\"", "true", "null", "-0.5E+1", "\"s\"", "false"];

/// Valid documents: all trees of at most n nodes, in several whitespace styles. With `trailing`,
/// also with a trailing comma in every non-empty container and in each one alone.
pub fn trees(n: usize, leaves: usize, trailing: bool, single_gaps: usize) -> Family {
    let mut tasks = Vec::new();
    for k in 1..=n {
        let all = shapes(k, leaves);
        for chunk in all.chunks(200) {
            let chunk = chunk.to_vec();
            tasks.push(task(move |sink| {
                for s in &chunk {
                    let d = doc_of(s, LEAVES);
                    sink(&d.plain());
                    sink(&d.spaced(|_| b" ", false));
                    sink(&d.spaced(|i| [&b"\n"[..], b"\t ", b"", b"\r\n", b"  "][i % 5], false));
                    if k <= single_gaps {
                        for gap in 0..=d.toks.len() {
                            for w in [&b" "[..], b"\t", b"\n", b"\r", b" \t\r\n"] {
                                sink(&d.spaced(|i| if i == gap { w } else { b"" }, false));
                            }
                        }
                    }
                    if trailing && !d.closers.is_empty() {
                        sink(&d.spaced(|_| b"", true));
                        sink(&d.spaced(|i| [&b" "[..], b"\n", b"", b"\r\t"][i % 4], true));
                        for c in &d.closers {
                            let one = Doc { toks: d.toks.clone(), closers: vec![*c] };
                            sink(&one.spaced(|_| b"", true));
                        }
                    }
                }
            }));
        }
    }
    family(&format!("all trees, <={n} nodes, {leaves} leaf kinds, whitespace styles"), tasks)
}

/// A few literals and documents of 2^24 bytes; `strings` leaves only the string literals.
pub fn giants(strings: bool) -> Family {
    let mut tasks = Vec::new();
    let n = (1usize << 24) + 1;
    for (head, fill) in [("", "x"), ("\\n", "x"), ("", "\u{e9}")] {
        tasks.push(task(move |sink| sink(&cat(&[b"\"", head.as_bytes(), &rep(fill.as_bytes(), n / fill.len()), b"y\\u00e9\""]))));
    }
    tasks.push(task(move |sink| sink(&cat(&[b"\"", &rep(b"x", n), b"\""]))));
    let texts = [("", "7", ""), ("0.", "3", "e1"), ("[]", " ", ""), ("[", "\n", "1]"), ("", " ", "{}"), ("[", " ", ""), ("[]", "\t", "x")];
    for (head, fill, tail) in texts.into_iter().filter(|_| !strings) {
        tasks.push(task(move |sink| sink(&cat(&[head.as_bytes(), &rep(fill.as_bytes(), n), tail.as_bytes()]))));
    }
    family("giants", tasks)
}

/// Sizes next to powers of two, up to 2^17 and a few at 2^20 (thorough: all up to 2^21, one of 2^24).
pub fn far_sizes(tier: Tier) -> Vec<usize> {
    let mut v = Vec::new();
    for k in 6..=tier.pick(17, 20) {
        v.extend((1usize << k) - 2..=(1 << k) + 2);
    }
    v.extend((1usize << 20) - 1..=(1 << 20) + 1);
    if tier == Tier::Thorough {
        v.extend([1 << 21, (1 << 22) + 1, (1 << 24) + 1]);
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// How many of a list of atoms are worth their while at a size.
fn some_atoms(atoms: &[Vec<u8>], n: usize) -> impl Iterator<Item = &Vec<u8>> {
    let step = if n < 20_000 { 1 } else if n < 200_000 { 3 } else { 9 };
    atoms.iter().skip(n % 3 % step).step_by(step)
}

/// Every atom far into a string, at the distances of `far_sizes`.
pub fn far_strings(tier: Tier, mut atoms: Vec<Vec<u8>>) -> Family {
    for c in ["\u{feff}", "\u{2028}", "\u{85}", "\u{a0}", "\u{200b}", "\u{fffd}", "\u{300}", "\u{202e}"] {
        atoms.push(c.as_bytes().to_vec());
    }
    let tasks = far_sizes(tier)
        .into_iter()
        .map(|n| {
            let atoms = atoms.clone();
            task(move |sink| {
                let fill = rep(b"x", n);
                for atom in some_atoms(&atoms, n) {
                    sink(&cat(&[b"\"", &fill, atom, b"yy\""]));
                    if n < 5000 {
                        sink(&cat(&[b"\"", &fill[1..], atom, b"\""]));
                        sink(&cat(&[b"\"", &rep("\u{e9}".as_bytes(), n / 2), atom, b"y\""]));
                    }
                }
            })
        })
        .chain(far_sizes(tier).into_iter().filter(|n| *n < 300_000).map(|n| {
            // Long runs of characters of one width, broken or not at, near and far from the end.
            task(move |sink| {
                let breaks: [&[u8]; 10] =
                    [b"", b"\xff", b"\x80", b"\xc3", b"\xe2\x82", b"\xf0\x9f\x98", b"\xed\xa0\x80", b"\xc0\xaf", b"\xf4\x90\x80\x80", "\u{1f639}".as_bytes()];
                for (i, c) in ["\u{e9}", "\u{20ac}", "\u{10ffff}"].into_iter().enumerate() {
                    let run = rep(c.as_bytes(), n / c.len());
                    for (j, b) in breaks.iter().enumerate() {
                        if n > 9000 && (i + j + n) % 3 != 0 {
                            continue;
                        }
                        let (head, tail) = run.split_at(run.len() / c.len() / 2 * c.len());
                        sink(&cat(&[b"\"", &run, b, b"\""]));
                        sink(&cat(&[b"\"", &run, b, c.as_bytes(), b"\""]));
                        sink(&cat(&[b"\"", head, b, tail, b"\""]));
                        if n < 1000 {
                            sink(&cat(&[b"{\"", &run, b, b"\":0}"]));
                            sink(&cat(&[b"[\"a", &run, b, b"a\"]"]));
                        }
                    }
                }
            })
        }))
        .collect();
    family("every atom far into a string", tasks)
}

/// Keys (and the strings next to them) of every far size, plain, with an atom at the end, nearly
/// the same, in every member of a small object.
pub fn far_keys(tier: Tier) -> Family {
    let tasks = far_sizes(tier)
        .into_iter()
        .map(|n| {
            task(move |sink| {
                let long = rep(b"x", n);
                let mut tails: Vec<&[u8]> = vec![b"", b"\\n", b"\\u0041"];
                if n < 200_000 {
                    tails.extend([&b"\xc3\xa9"[..], b"\\ud83d\\ude39", b"\\q", b"\xff", b"\x01"]);
                }
                for t in tails {
                    let k = cat(&[b"\"", &long, t, b"\""]);
                    sink(&cat(&[b"{", &k, b":1}"]));
                    if n < 70_000 {
                        sink(&cat(&[b"{\"a\":[0],", &k, b" :{},\"b\":\"c\"}"]));
                        sink(&cat(&[b"[{", &k, b":", &k, b"},", &k, b"]"]));
                    }
                    if n < 5000 {
                        sink(&cat(&[b"{", &k, b":1,", &k[..k.len() - 1], b"y\":2,", &k, b":3}"]));
                        sink(&cat(&[b"{", &k, b"}"]));
                        sink(&cat(&[b"{\"a\":{", &k, b":[", &k, b",]}}"]));
                        sink(&cat(&[b"{", &k, b",1}"]));
                    }
                }
            })
        })
        .collect();
    family("keys of far sizes", tasks)
}

/// Something far into the input, after white space, elements, members, digits or nested values;
/// and every atom far into a string.
pub fn far(tier: Tier, atoms: Vec<Vec<u8>>) -> Vec<Family> {
    let things: &[&str] = &[
        "", "1", "-0.5e+1", "\"\\u0041\"", "\"\u{e9}\"", "[]", "{\"a\":[1]}", "true", "null", "x", "]", "}", ",", ":", "\"", "\"\\ud800\"", "01", "1.", "-", "tru", "/", "\u{feff}", "\u{e9}", "[1 2]",
        "{\"a\" 1}", "{1:1}", "[1,]", "{\"a\":1,}", "\"\n\"", "\u{0}",
    ];
    let tasks = far_sizes(tier)
        .into_iter()
        .map(|n| {
            task(move |sink| {
                let things: Vec<Vec<u8>> = things.iter().map(|t| t.as_bytes().to_vec()).collect();
                let ws = rep(b" ", n);
                let zeros = rep(b"0,", n);
                let members = rep(b"\"k\":0,", n / if n > 10_000 { 6 } else { 1 });
                let digits = rep(b"7", n);
                for t in some_atoms(&things, n) {
                    sink(&cat(&[b"[]", &ws, t]));
                    sink(&cat(&[b"[", &ws, t, b"]"]));
                    sink(&cat(&[b"{\"a\":", &ws, t, b"}"]));
                    sink(&cat(&[b"[", &zeros, t, b"]"]));
                    sink(&cat(&[b"[[", &zeros, b"0],", t, b"]"]));
                    sink(&cat(&[b"{", &members, b"\"z\":", t, b"}"]));
                    if n < 5000 {
                        sink(&cat(&[&ws, t]));
                        sink(&cat(&[b"{", &members, t, b"}"]));
                        sink(&cat(&[b"{\"y\":{", &members, b"\"z\":", t, b"},\"a\":[\"s\",2]}"]));
                        sink(&cat(&[b"[\"", &digits, b"\",", t, b"]"]));
                    }
                }
                for t in ["", ".5", "e1", "E-2", "x", ".", "e", "-", " ", "0.0"] {
                    sink(&cat(&[&digits, t.as_bytes()]));
                    if n < 5000 {
                        sink(&cat(&[b"[-", &digits, t.as_bytes(), b",\"a\"]"]));
                        sink(&cat(&[b"[0.", &digits, t.as_bytes(), b"]"]));
                    }
                }
            })
        })
        .collect();
    vec![family("something far into the input", tasks), far_strings(tier, atoms), far_keys(tier)]
}

/// Siblings that are nearly the same: keys, strings and numbers of equal length that differ in
/// one place, at every place; twins; one a prefix of the other.
pub fn near(tier: Tier) -> Family {
    let max = tier.pick(48, 150);
    let mut lens: Vec<usize> = (1..=max).collect();
    lens.extend([63, 64, 65, 127, 128, 129, 255, 256, 257]);
    lens.sort_unstable();
    lens.dedup();
    let tasks = lens
        .into_iter()
        .map(|len| {
            task(move |sink| {
                for pos in (0..len).filter(|p| len <= 150 || p % 16 < 2 || len - p < 4) {
                    let pad = |f: &str, c: &str| format!("{}{c}{}", f.repeat(pos), f.repeat(len - pos - 1));
                    let (a, b) = (pad("x", "a"), pad("x", "b"));
                    let (e, p) = (pad("x", "\\n"), "x".repeat(len - 1));
                    for (a, b) in [(&a, &b), (&b, &a), (&a, &a), (&e, &a), (&a, &e), (&p, &a), (&e, &e)] {
                        sink(format!("{{\"{a}\":1,\"{b}\":2}}").as_bytes());
                        sink(format!("[\"{a}\",\"{b}\"]").as_bytes());
                        if len <= 24 || pos + 1 == len || pos == 0 {
                            sink(format!("{{\"{a}\":\"{b}\",\"{b}\":\"{a}\"}}").as_bytes());
                            sink(format!("[{{\"{a}\":[]}},{{\"{b}\":[]}}]").as_bytes());
                            sink(format!("{{\"{a}\":{{\"{b}\":null,\"{a}\":1}}}}").as_bytes());
                            // Not next to each other.
                            sink(format!("{{\"{a}\":1,\"z\":0,\"{b}\":2}}").as_bytes());
                            sink(format!("[\"{a}\",0,[],\"{b}\"]").as_bytes());
                            sink(format!("[{{\"{a}\":1,\"q\":\"{b}\"}},{{\"q\":\"{a}\",\"{b}\":2}}]").as_bytes());
                            sink(format!("{{\"{a}\":[\"{a}\",{{\"{b}\":\"{b}\"}}]}}").as_bytes());
                        }
                    }
                    let (m, n) = (pad("1", "2"), pad("1", "3"));
                    for (m, n) in [(&m, &n), (&m, &m), (&n, &m)] {
                        sink(format!("[{m},{n},-{m},0.{n}]").as_bytes());
                        sink(format!("{{\"a\":{m},\"b\":{n}}}").as_bytes());
                        sink(format!("[{m},\"\",{n},[{m}],{{\"a\":{n}}}]").as_bytes());
                    }
                }
            })
        })
        .chain(crowds(tier))
        .collect();
    family("siblings that differ in one place, and late ones that are spelled differently", tasks)
}

/// Two elements, values or keys that mean the same or nearly so, after a crowd of others.
fn crowds(tier: Tier) -> Vec<Task> {
    let alike: [&[&str]; 3] = [
        &["1", "1.0", "1.00", "1e0", "10e-1", "1E0", "1e+0", "0", "-0", "0.0", "-1", "100", "1e2"],
        &["\"a\"", "\"\\u0061\"", "\"A\"", "\"\"", "\"a\\n\"", "\"a\\u000a\"", "\"\u{e9}\"", "\"\\u00e9\"", "\"\\u00E9\"", "\"/\"", "\"\\/\""],
        &["[]", "{}", "[0]", "{\"a\":0}", "null", "true", "false"],
    ];
    let mut sizes = vec![1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129];
    if tier == Tier::Thorough {
        sizes.extend([5, 6, 10, 11, 12, 20, 24, 40, 48, 100, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025]);
    }
    sizes
        .into_iter()
        .map(|n| {
            task(move |sink| {
                for (i, set) in alike.iter().enumerate() {
                    for a in *set {
                        for b in *set {
                            for fill in [["0,", "\"\",", "null,"][i], &format!("{a},")[..]] {
                                sink(format!("[{}{a},{b}]", fill.repeat(n)).as_bytes());
                                if n < 40 {
                                    sink(format!("[[{}{a}],{b}]", fill.repeat(n)).as_bytes());
                                }
                            }
                            let members: String = (0..n).map(|k| format!("\"{k}\":0,")).collect();
                            sink(format!("{{{members}\"y\":{a},\"z\":{b}}}").as_bytes());
                            if i == 1 {
                                sink(format!("{{{members}{a}:1,{b}:2}}").as_bytes());
                                sink(format!("{{{a}:1,{members}{b}:2}}").as_bytes());
                            }
                        }
                    }
                }
            })
        })
        .collect()
}

/// Nothing but nesting, in three styles, around the powers of two.
pub fn deep(tier: Tier) -> Family {
    let mut tasks = Vec::new();
    for k in 7..=tier.pick(12, 14) {
        for d in (1usize << k) - 1..=(1 << k) + 1 {
            tasks.push(task(move |sink| {
                for (open, close) in [("[", "]"), ("{\"a\":", "}"), ("[{\"\":", "}]"), ("[0,", "]")] {
                    let d = if open.starts_with("[{") { d / 2 } else { d };
                    sink(format!("{}null{}", open.repeat(d), close.repeat(d)).as_bytes());
                    sink(format!("{}{}", open.repeat(d), close.repeat(d)).as_bytes());
                }
            }));
        }
    }
    family("nesting around powers of two", tasks)
}

/// Texts made of the tokens of JSON: small documents, and nearly.
pub fn json_texts(max: usize, prefix: &[u8]) -> Family {
    let tokens = ["[", "]", "{", "}", ",", ":", "null", "true", "-0", "1e5", "\"a\"", "\"", " ", "\\n"];
    words("texts that look like JSON", &tokens.iter().map(|t| t.as_bytes().to_vec()).collect::<Vec<_>>(), max, prefix, b"")
}

/// Hexadecimal digits in every mixture of cases: all code units alone, some pairs.
pub fn hex_cases() -> Family {
    let spell = |v: u32, mask: u32| -> String {
        format!("{v:04x}").chars().enumerate().map(|(i, c)| if mask >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect()
    };
    let mut tasks: Vec<Task> = (0..=255u32)
        .map(|hi| {
            task(move |sink| {
                for v in hi << 8..(hi + 1) << 8 {
                    if (0xd800..0xe000).contains(&v) {
                        continue;
                    }
                    let mut seen: Vec<String> = (0..16).map(|mask| spell(v, mask)).collect();
                    seen.sort();
                    seen.dedup();
                    for h in seen {
                        sink(format!("\"\\u{h}\"").as_bytes());
                    }
                }
            })
        })
        .collect();
    for h in [0xd800u32, 0xd80a, 0xd83d, 0xd8ff, 0xdaaa, 0xdabc, 0xdbbf, 0xdbff] {
        tasks.push(task(move |sink| {
            for l in [0xdc00u32, 0xdcba, 0xdcff, 0xde39, 0xdeed, 0xdfee, 0xdfff, 0xddda] {
                for mask in 0..256 {
                    sink(format!("\"\\u{}\\u{}\"", spell(h, mask), spell(l, mask >> 4)).as_bytes());
                }
            }
        }));
    }
    family("hexadecimal digits in every mixture of cases", tasks)
}

/// All 65536 \u escapes as string literals, upper and lower case, alone and with neighbours.
pub fn all_u_escapes() -> Family {
    let mut tasks = Vec::new();
    for hi in 0..=255u32 {
        tasks.push(task(move |sink| {
            for lo in 0..256u32 {
                let v = hi << 8 | lo;
                sink(format!("\"\\u{v:04x}\"").as_bytes());
                sink(format!("\"\\u{v:04X}\"").as_bytes());
                sink(format!("\"a\\u{v:04x}z\"").as_bytes());
                sink(format!("\"\\u{v:04x}\\udc00\"").as_bytes());
                sink(format!("\"\\ud800\\u{v:04X}\"").as_bytes());
            }
        }));
    }
    family("all 65536 \\u escapes", tasks)
}

/// Surrogate pairs: all 2^20 (or a grid of them).
pub fn all_pairs(all: bool) -> Family {
    let mut tasks = Vec::new();
    let step = if all { 1 } else { 13 };
    for h in 0..1024u32 {
        tasks.push(task(move |sink| {
            let mut l = if all { 0 } else { h % 13 };
            let mut s = String::new();
            while l < 1024 {
                s.clear();
                use std::fmt::Write;
                let _ = write!(s, "\"\\u{:04x}\\u{:04X}\"", 0xd800 + h, 0xdc00 + l);
                sink(s.as_bytes());
                l += step;
            }
        }));
    }
    family(if all { "all 2^20 surrogate pairs" } else { "every 13th surrogate pair" }, tasks)
}

/// Every scalar value raw in a string literal (or as bare text).
pub fn all_scalars(quoted: bool, step: u32) -> Family {
    let mut tasks = Vec::new();
    for block in 0..=0x10fu32 * 4 + 3 {
        tasks.push(task(move |sink| {
            let start = block * 0x4000;
            let mut c = start;
            while c < start + 0x4000 {
                if let Some(ch) = char::from_u32(c) {
                    let mut s = String::new();
                    if quoted {
                        if c < 0x20 || ch == '"' || ch == '\\' {
                            c += 1;
                            continue;
                        }
                        s.push('"');
                        s.push(ch);
                        s.push('"');
                    } else {
                        s.push(ch);
                    }
                    sink(s.as_bytes());
                }
                c += if c < 0x3000 || step == 1 { 1 } else { step };
            }
        }));
    }
    family("all Unicode scalar values", tasks)
}

/// Things other notations allow that JSON does not: comments, other literals and numbers, other
/// quotes, other white space, marks and guards.
pub fn foreign_atoms() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [
        "\u{feff}", "\u{fffe}", "\u{a0}", "\u{85}", "\u{2028}", "\u{2029}", "\u{3000}", "\u{200b}", "\u{2060}", "\u{1680}", "\0", "\u{1}", "\u{4}", "\u{8}", "\u{b}", "\u{c}", "\u{1a}", "\u{1b}",
        "\u{1c}", "\u{1e}", "\u{1f}", "\u{7f}", "\u{e9}", "\u{1f600}", "//", "//\n", "// x\n", "///", "#", "#\n", "/", "/*", "*/", "/**/", "/* x */", "/*\"*/", "<!--", "-->", "--", "--\n", ";", ";\n", "'", "''",
        "'a'", "`", "`a`", "NaN", "-NaN", "Infinity", "-Infinity", "+Infinity", "inf", "nan", "undefined", "None", "True", "False", "NULL", "Null", "TRUE", "FALSE", "nil", "void", "yes", "no", "on", "a", "t", "tr",
        "f", "fals", "n", "nul", "nulls", "truefalse", "_", "$", "key", "new", "0x1F", "0X0", "0b1", "0o7", "+1", "+", ".", ".5", "5.", "-.5", "1_000", "1'000", "00", "01", "-01", "--1", "+-1", "1e", "1e+", "1.e5", "1f",
        "1n", "1L", "1u", "1%", "\u{661}", "\u{ff11}", "\u{2212}1", "\"\"\"", "\"a\" \"b\"", "\"a\"+\"b\"", "\"a\"\"b\"", "\u{201c}a\u{201d}", "=", "=>", ":=", "::", "()", "(1)", "<>", "...", ")]}'", ")]}',\n", "while(1);", "for(;;);", "!", "!!", "?", "@",
        "|", "||", "&", "&&", "^", "~", "\\", "\\n", "\\\n", "\\u0041", "\\\"", "%", "%20", "*", ",", ",,", ":", "[]", "{}", "1", "\"\"", "null", "\"", "[", "]", "{", "}",
    ]
    .iter()
    .map(|s| s.as_bytes().to_vec())
    .collect();
    for b in [&b"\xff"[..], b"\xfe", b"\xff\xfe", b"\xfe\xff", b"\xef\xbb", b"\xef\xbb\xbf\xef\xbb\xbf", b"\0\0\xfe\xff", b"\x80", b"\xc0\x80", b"\xc2", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\x1f\x8b", b"+ADs-"] {
        v.push(b.to_vec());
    }
    v
}

/// Every foreign atom at every boundary between tokens of all small trees, with and without a
/// space on either side; in place of every token; and at two boundaries at once.
pub fn foreign(tier: Tier) -> Family {
    let mut tasks = Vec::new();
    for k in 1..=tier.pick(3, 4) {
        for s in shapes(k, if k > 2 { 1 } else { 4 }) {
            tasks.push(task(move |sink| {
                let d = doc_of(&s, LEAVES);
                let n = d.toks.len();
                for a in foreign_atoms() {
                    for i in 0..=n {
                        let (x, y) = (d.toks[..i].concat(), d.toks[i..].concat());
                        for (l, r) in [(&b""[..], &b""[..]), (b" ", b""), (b"", b" "), (b"\n", b"\n")] {
                            sink(&cat(&[&x, l, &a, r, &y]));
                        }
                        if i < n {
                            sink(&cat(&[&x, &a, &d.toks[i + 1..].concat()]));
                        }
                        if k <= 2 {
                            for j in i..=n {
                                sink(&cat(&[&x, &a, &d.toks[i..j].concat(), &a, &d.toks[j..].concat()]));
                            }
                        }
                    }
                }
            }));
        }
    }
    family("every non-JSON construct at every place of small trees", tasks)
}

/// Texts that mean something elsewhere: other JSON tokens and documents, numbers, names that
/// libraries reserve, formats, paths. To a JSON string they are text like any other.
pub const TELLING: &[&str] = &[
    "null", "true", "false", "Null", "NULL", "True", "nul", "nulls", "none", "None", "undefined", "nil", "NaN", "nan", "Infinity", "-Infinity", "inf", "0", "1", "-1", "-0", "12", "255", "256", "65536", "4294967296",
    "18446744073709551616", "1.5", "1e5", "1E400", "0x1F", "+1", ".5", "5.", "01", " 1", "1 ", "[]", "{}", "[1]", "[null]", "{'a':1}", "{\\\"a\\\":1}", "\\\"\\\"", "\\\"a\\\"", "'a'", "", " ", "  ", "\u{a0}", "\u{feff}", "\u{feff}a",
    "\\u0000", "a\\u0000", "\\n", "\\r\\n", "a\\n", "\\ta", " a", "a ", "__proto__", "constructor", "prototype", "toString", "hasOwnProperty", "length", "$ref", "$id", "$schema", "$type", "@type", "#", "#/a", "/a", "\\/", "a/b", "</script>",
    "<!--", "<\\/script>", "&amp;", "<", ">", "&", "'", "$serde_json::private::Number", "$serde_json::private::RawValue", "$serde::private", "key", "value", "type", "id", "a.b", "a[0]", "*", "..", ".", "-", "--", "_", "%s", "%", "{0}", "{{}}", "${a}", "$",
    "\\\\", "\\\\n", "\\\\u0041", "\\\\\\\"", "u0041", "\\\\\\\\", "data:", "http://a", "2020-01-01", "2020-01-01T00:00:00Z", "1970", "AAAA", "aGk=", "0.1.2", "1,2", "1;2", "a,b", "a:b", ",", ":", "[", "]", "{", "}", "//", "/*", "e\u{301}", "\u{fb01}", "\u{130}",
    "\u{df}", "SS", "\u{ff21}", "\u{2028}", "\u{2029}", "\u{202e}", "\u{200d}", "\u{fffd}", "\\ufffd", "\u{fffe}", "\u{1f468}\u{200d}\u{1f469}", "\u{1f1e9}\u{1f1ea}", "\\u001b[0m", "\\u007f", "\u{7f}",
];

/// The content of a literal with its first, or every, plain character written as `\uXXXX`.
fn escaped(content: &str, all: bool) -> String {
    let mut out = String::new();
    let mut cs = content.chars();
    let mut first = true;
    while let Some(c) = cs.next() {
        if c == '\\' {
            out.push(c);
            out.extend(cs.next());
        } else if first || all {
            let mut u = [0u16; 2];
            out.extend(c.encode_utf16(&mut u).iter().map(|u| format!("\\u{u:04x}")));
            first = false;
        } else {
            out.push(c);
        }
    }
    out
}

/// Telling texts as keys and values in every role, spelled in several ways.
pub fn telling() -> Family {
    let mut tasks = Vec::new();
    for s in TELLING {
        tasks.push(task(move |sink| {
            let hex = s.contains("\\u");
            for t in [s.to_string(), escaped(s, false), escaped(s, true)] {
                if hex && t != **s {
                    continue;
                }
                for d in [
                    format!("\"{t}\""), format!("[\"{t}\"]"), format!("[0,\"{t}\",[\"{t}\"],\"{t}\"]"), format!("{{\"a\":\"{t}\"}}"), format!("{{\"{t}\":1}}"), format!("{{\"{t}\":\"{t}\"}}"),
                    format!("{{\"{t}\":1,\"{t}\":2}}"), format!("{{\"a\":1,\"{t}\":{{\"{t}\":null}},\"b\":2}}"), format!("{{\"{t}\":\"1\"}}"), format!("[{{\"{t}\":[]}},{{\"{t}\":{{}}}}]"), format!(" {{ \"{t}\" : [ \"{t}\" , null ] }} "),
                ] {
                    sink(d.as_bytes());
                }
                for u in TELLING {
                    sink(format!("{{\"{t}\":\"{u}\",\"{u}\":[\"{t}\"]}}").as_bytes());
                }
            }
        }));
    }
    family("texts with a meaning elsewhere, as keys and values", tasks)
}

pub fn telling_literals() -> Family {
    let tasks = TELLING
        .iter()
        .map(|s| {
            task(move |sink| {
                for t in [s.to_string(), escaped(s, false), escaped(s, true)] {
                    sink(format!("\"{t}\"").as_bytes());
                    for u in TELLING {
                        sink(format!("\"{t}{u}\"").as_bytes());
                    }
                }
            })
        })
        .collect();
    family("texts with a meaning elsewhere, and pairs of them", tasks)
}

/// Every scalar value as white space, before, inside and after a document.
pub fn scalar_gaps(bmp: u32, step: u32) -> Family {
    let mut tasks = Vec::new();
    for block in 0..=0x10fu32 * 4 + 3 {
        tasks.push(task(move |sink| {
            let start = block * 0x4000;
            let mut c = start;
            while c < start + 0x4000 {
                if let Some(ch) = char::from_u32(c) {
                    for s in [format!("{ch}[]"), format!("[]{ch}"), format!("[{ch}0]"), format!("{{\"a\"{ch}:0}}"), format!("{{{ch}\"a\":0{ch}}}"), format!("-{ch}"), format!("1{ch}"), format!("\"\\{ch}\""), format!("\"\\u00{ch}0\"")] {
                        sink(s.as_bytes());
                    }
                }
                c += if c < 0x3000 || (0xfe00..0xfff0).contains(&c) { 1 } else if c < 0x10000 { bmp } else { step };
            }
        }));
    }
    family("Unicode scalar values as white space, digits and escapes", tasks)
}

/// Whether `k` of `n` places is one to look at in a long history: near either end, or next to
/// a power of two from either end.
pub fn notable(k: usize, n: usize, near: usize) -> bool {
    let pow = |x: usize| x > 0 && (x.is_power_of_two() || (x + 1).is_power_of_two() || (x > 1 && (x - 1).is_power_of_two()));
    k < near || n - k <= near || pow(k) || pow(n - k)
}

/// Only the cases of at most `max` bytes.
pub fn shorter(f: Family, max: usize) -> Family {
    let tasks = f
        .tasks
        .into_iter()
        .map(|t| {
            task(move |sink| {
                t(&mut |case| {
                    if case.len() <= max {
                        sink(case);
                    }
                });
            })
        })
        .collect();
    Family { name: format!("{}, <={max} bytes", f.name), tasks }
}

/// Every JSON text of the repository's own corpora is not used; these are the standard mixed
/// universes used by the acceptance-like checks.
pub fn universe(tier: Tier, cfg: Cfg) -> Vec<Family> {
    let loose = Cfg { trailing: true, limit: None, root_any: true };
    let mut v = vec![
        cover(cfg, tier.pick(2, 3), true),
        token_trie(Cfg { limit: None, ..loose }, tier.pick(7, 9)),
        all_bytes(tier.pick(2, 3)),
        class_bytes(tier.pick(3, 4)),
        words("string atoms as a root string", &all_atoms(), tier.pick(2, 3), b"\"", b"\""),
        words("string atoms as a key", &all_atoms(), 2, b"{\"", b"\":0}"),
        words("string atoms as an element", &all_atoms(), 2, b"[\"", b"\"]"),
        words("string atoms unclosed", &all_atoms(), 2, b"\"", b""),
        positions("root string", all_atoms(), tier.pick(40, 80), b"\"", b"\""),
        pumps(tier),
        mutations(tier == Tier::Thorough),
        trees(tier.pick(4, 5), 4, true, 3),
        all_u_escapes(),
        foreign(tier),
        telling(),
    ];
    v.extend(far(tier, all_atoms()));
    v.extend(numbers(tier.pick(5, 7)));
    v.push(giants(false));
    v
}

pub fn ws_only(b: &[u8]) -> bool {
    b.iter().all(|b| is_ws(*b))
}

/// String literals (with quotes): all sequences of good atoms, all escapes, pairs and scalars,
/// every atom at every position, and long ones.
pub fn literals(tier: Tier) -> Vec<Family> {
    let hexes: Vec<Vec<u8>> = ["\\u0000", "\\u007f", "\\u0080", "\\u07FF", "\\u0800", "\\uFfFf", "\\ud7ff", "\\ue000", "\\uD800\\uDc00", "\\udbff\\uDFFF", "\\ud83d\\ude39", "\\n", "\\\\", "\\\"", "u", "d", "\u{1f639}", "\u{e9}"]
        .iter()
        .map(|s| s.as_bytes().to_vec())
        .collect();
    let long: Vec<usize> = pump_sizes(tier);
    let mut tasks = Vec::new();
    for chunk in long.chunks(4) {
        let chunk = chunk.to_vec();
        tasks.push(task(move |sink| {
            for &n in &chunk {
                for a in good_atoms() {
                    sink(&cat(&[b"\"", &rep(&a, n), b"\""]));
                    if n <= 5000 {
                        sink(&cat(&[b"\"\\n", &rep(&a, n), b"\""]));
                        sink(&cat(&[b"\"", &rep(&a, n), b"\\u00e9\""]));
                        sink(&cat(&[b"\"", &rep(&a, n), b"\xc3\xa9\\\\x\""]));
                    }
                }
            }
        }));
    }
    vec![
        words("well-formed atoms", &good_atoms(), tier.pick(4, 5), b"\"", b"\""),
        words("escape mixtures", &hexes, tier.pick(5, 6), b"\"", b"\""),
        positions("literals", good_atoms(), tier.pick(70, 140), b"\"", b"\""),
        family("repeated atoms", tasks),
        telling_literals(),
        far_strings(tier, good_atoms()),
        giants(true),
        hex_cases(),
        all_u_escapes(),
        all_pairs(true),
        all_scalars(true, 1),
    ]
}

/// Families rich in accepted documents: all small trees in all styles, every literal and number
/// in every role, deep and wide documents.
pub fn documents(tier: Tier) -> Vec<Family> {
    let loose = Cfg { trailing: true, limit: Some(128), root_any: true };
    let mut v = vec![
        trees(tier.pick(6, 7), 4, true, 4),
        trees(tier.pick(4, 5), 7, true, 3),
        cover(loose, 2, false),
        token_trie(Cfg { limit: None, ..loose }, tier.pick(8, 10)),
        words("well-formed atoms as root", &good_atoms(), tier.pick(3, 4), b"\"", b"\""),
        words("well-formed atoms as key and value", &good_atoms(), tier.pick(2, 3), b"{\"x\":[\"", b"\"],\"\\u0041\":{}}"),
        words("well-formed atoms as key", &good_atoms(), tier.pick(2, 3), b" { \"", b"\" : 1 , } "),
        positions("root string", good_atoms(), tier.pick(40, 80), b"\"", b"\""),
        pumps(tier),
        wide(tier),
        mutations(false),
        all_u_escapes(),
        telling(),
        near(tier),
        hex_cases(),
    ];
    v.extend(far(tier, good_atoms()));
    v.extend(numbers(tier.pick(6, 7)));
    v.push(giants(false));
    v
}

/// Containers with every number of elements or members up to a bound, of every pair of element
/// kinds alternating, at several nesting levels.
pub fn wide(tier: Tier) -> Family {
    let max = tier.pick(20, 70);
    let els = ["1", "\"s\"", "\"\\n\"", "[]", "{}", "[0]", "{\"k\":null}", "true"];
    let mut tasks = Vec::new();
    for n in 0..=max {
        tasks.push(task(move |sink| {
            for a in els {
                for b in els {
                    for ws in ["", " "] {
                        let list: Vec<&str> = (0..n).map(|i| if i % 2 == 0 { a } else { b }).collect();
                        let arr = format!("[{ws}{}{ws}]", list.join(&format!("{ws},{ws}")));
                        let obj = format!(
                            "{{{}}}",
                            list.iter().enumerate().map(|(i, v)| format!("{ws}\"{}\"{ws}:{ws}{v}", ["k", "\\u006b", "z"][i % 3])).collect::<Vec<_>>().join(",")
                        );
                        sink(arr.as_bytes());
                        sink(obj.as_bytes());
                        sink(format!("[{arr},{obj},0]").as_bytes());
                        sink(format!("{{\"a\":{obj},\"b\":{arr}{ws}}}").as_bytes());
                    }
                }
            }
        }));
    }
    family(&format!("containers of every size <={max}"), tasks)
}

/// The cases of `f`, each preceded by `tag`.
pub fn tagged(f: Family, tag: u8) -> Family {
    let name = f.name;
    let tasks = f
        .tasks
        .into_iter()
        .map(|t| -> Task {
            Box::new(move |sink| {
                let mut buf = vec![tag];
                t(&mut |case| {
                    buf.truncate(1);
                    buf.extend_from_slice(case);
                    sink(&buf);
                });
            })
        })
        .collect();
    Family { name, tasks }
}
