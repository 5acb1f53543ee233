//! C29: memory is allocated for containers only, in proportion to the input, and all given back.
use jjmc::engine::{self, Check, Family, Level, Tier, W};
use jjmc::pda::Cfg;
use jjmc::{gen, rp, util};
use justjson::doc::{Document, HeaplessDocument};
use justjson::parser::{Parser, Tokenizer};
use justjson::{AnyStr, JsonNumber, JsonString, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt::Write;
use std::hash::{Hash, Hasher};
use std::hint::black_box;

/// What this thread allocated since `reset`.
#[derive(Clone, Copy, Default, Debug)]
struct Use {
    calls: u64,
    live: i64,
    bytes: i64,
    peak: i64,
    asked: u64,
}
thread_local! {
    static USE: Cell<Use> = const { Cell::new(Use { calls: 0, live: 0, bytes: 0, peak: 0, asked: 0 }) };
}
fn count(calls: u64, live: i64, bytes: i64, asked: usize) {
    let _ = USE.try_with(|u| {
        let mut v = u.get();
        v.calls += calls;
        v.live += live;
        v.bytes += bytes;
        v.peak = v.peak.max(v.bytes);
        v.asked = v.asked.max(asked as u64);
        u.set(v);
    });
}
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(1, 1, l.size() as i64, l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(1, 1, l.size() as i64, l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(0, -1, -(l.size() as i64), 0);
        System.dealloc(p, l);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(1, 0, n as i64 - l.size() as i64, n);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

/// Runs `f` and says what it allocated and kept.
fn measure<T>(f: impl FnOnce() -> T) -> (T, Use) {
    USE.with(|u| u.set(Use::default()));
    let t = f();
    (t, USE.with(Cell::get))
}

/// Runs `f`, which must not allocate at all.
fn free<T>(w: &mut W, what: &str, f: impl FnOnce() -> T) -> T {
    w.traces += 1;
    let (t, u) = measure(f);
    if u.calls > 0 {
        w.fail("allocates", format!("{what} allocates: {u:?}"));
    }
    t
}

/// Nothing the closure allocated may be left when it has returned.
fn clean<T>(w: &mut W, what: &str, f: impl FnOnce() -> T) -> Use {
    w.traces += 1;
    let ((), u) = measure(|| drop(f()));
    if u.live != 0 || u.bytes != 0 {
        w.fail("leaks", format!("{what} leaves {} allocations, {} bytes", u.live, u.bytes));
    }
    u
}

/// Memory is bounded by the input's length.
fn bounded(w: &mut W, what: &str, len: usize, u: Use) {
    let most = 1024 * (len as i64) + 4096;
    if u.peak > most {
        w.fail("too-much-memory", format!("{what} holds {} bytes for {len} bytes of input", u.peak));
    }
}

/// A sink that allocates nothing.
struct Null(u64);
impl Write for Null {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 = self.0.wrapping_mul(31).wrapping_add(s.len() as u64);
        Ok(())
    }
}
impl Hasher for Null {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        self.0 = self.0.wrapping_mul(31).wrapping_add(b.len() as u64);
    }
}

fn string_use(w: &mut W, s: &JsonString<'_>) {
    free(w, "reading a string", || {
        let mut n = Null(0);
        s.hash(&mut n);
        let _ = write!(n, "{s}{}{}", s.as_json(), s.decoded());
        let it = s.decoded();
        let jt = s.as_json();
        (s.len(), s.decoded_len(), s.is_empty(), s.as_str().is_some(), it.clone().count(), it.size_hint(), jt.clone().count(), jt.size_hint(), n.0)
    });
    free(w, "comparing strings", || {
        (s == s, s.cmp(s), *s == *"a\u{e9}", s.partial_cmp("a\u{e9}"), s == &s.as_json_str().map_or("", |j| j.as_str()))
    });
    // The same text, as text, built in code, and spelled otherwise.
    let text: String = s.decoded().collect();
    let spelled: String = std::iter::once('"').chain(text.encode_utf16().flat_map(|u| format!("\\u{u:04x}").chars().collect::<Vec<_>>())).chain(std::iter::once('"')).collect();
    let other = JsonString::from_json(&spelled);
    for o in [Some(JsonString::from(text.as_str())), other.ok()].iter().flatten() {
        free(w, "comparing equal strings", || black_box((s == o, o == s, s.cmp(o), o.cmp(s), *o == *text, *s == *text, s.partial_cmp(text.as_str()), o.partial_cmp(&text.as_str()))));
    }
}

/// Everything a value can be asked without building something new.
fn value_use(w: &mut W, v: &Value<'_>, u: &Value<'_>) {
    free(w, "comparing values", || v == u);
    free(w, "printing to a caller's writer", || {
        let mut n = Null(0);
        let a = v.write_json_to(&mut n).is_ok();
        let b = v.pretty_write_json_to(&mut n).is_ok();
        let c = v.pretty_write_json_to_custom("\t", "\r\n", &mut n).is_ok();
        black_box((a, b, c, write!(n, "{v}{v:#}").is_ok(), n.0));
    });
    each(w, v);
}
fn each(w: &mut W, v: &Value<'_>) {
    free(w, "asking a value", || {
        black_box((v.as_object(), v.as_array(), v.as_string(), v.as_str(), v.as_number(), v.as_bool(), v.is_null()));
        black_box((v.as_u8(), v.as_i64(), v.as_u128(), v.as_f64(), v.as_f32()));
        black_box((v.get("k"), v.get_index(0), v.get_index(usize::MAX)));
    });
    match v {
        Value::String(s) => string_use(w, s),
        Value::Number(n) => free(w, "asking a number", || {
            black_box((n.source(), n.as_f64(), n.as_f32(), n.as_u64(), n.as_i8(), n == n));
        }),
        Value::Array(a) => a.iter().for_each(|v| each(w, v)),
        Value::Object(o) => {
            free(w, "looking up a key", || black_box(o.get("\u{e9}\n").is_some()));
            for e in o.iter() {
                string_use(w, &e.key);
                each(w, &e.value);
            }
        }
        _ => {}
    }
}

/// Containers, and containers with something in them.
fn containers(r: &rp::RVal) -> (i64, i64) {
    match r {
        rp::RVal::Arr(v) => v.iter().map(containers).fold((1, i64::from(!v.is_empty())), |a, b| (a.0 + b.0, a.1 + b.1)),
        rp::RVal::Obj(v) => v.iter().map(|(_, v)| containers(v)).fold((1, i64::from(!v.is_empty())), |a, b| (a.0 + b.0, a.1 + b.1)),
        _ => (0, 0),
    }
}

fn tokens<const G: bool>(w: &mut W, t: Tokenizer<'_, G>, what: &str) {
    free(w, what, || {
        let mut t = t;
        let mut n = Null(0);
        // Two items after the end or the first error.
        let mut over = 0;
        while over < 3 {
            black_box(t.peek());
            match t.next() {
                Some(Ok(_)) => {}
                Some(Err(e)) => {
                    let _ = write!(n, "{e}{}", e.kind());
                    over += 1;
                }
                None => over += 1,
            }
        }
        black_box(t.next_or_eof().is_ok())
    });
}

const CFG: Cfg = Cfg { trailing: true, limit: None, root_any: true };

fn judge(doc: &[u8], w: &mut W) {
    let tree = rp::parse(doc, &CFG);
    let pc = util::config(&CFG);
    let text = std::str::from_utf8(doc).ok();
    let mut n = Null(0);
    w.state(match &tree {
        Some(t) => util::shape_hash(t),
        None => 0,
    });
    w.edge(engine::hash_bytes(5, doc), doc.len() as u64);
    // Without anything to build
    free(w, "validating bytes", || {
        if let Err(e) = Parser::validate_json_bytes_with_config(doc, pc) {
            let _ = write!(n, "{e}{}", e.kind());
        }
        black_box(Parser::validate_json_bytes(doc).is_ok())
    });
    free(w, "a fixed-capacity document", || {
        let a = HeaplessDocument::<3>::from_json_bytes_with_config(doc, pc).is_ok();
        let b = HeaplessDocument::<40>::from_json_bytes_with_config(doc, pc).is_ok();
        (a, b)
    });
    tokens(w, Tokenizer::for_json_bytes(doc), "tokenizing bytes");
    if let Some(s) = text {
        free(w, "validating text", || black_box(Parser::validate_json_with_config(s, pc).is_ok()));
        tokens(w, Tokenizer::for_json(s), "tokenizing text");
        free(w, "a lone string", || black_box(JsonString::from_json(s).is_ok()));
        free(w, "a lone number", || black_box(JsonNumber::from_json(s).is_ok()));
    }
    let (all, full) = tree.as_ref().map_or((0, 0), containers);
    // Document: one list of nodes
    w.traces += 1;
    let (d, u) = measure(|| Document::from_json_bytes_with_config(doc, pc));
    if u.live > i64::from(d.is_ok()) {
        w.fail("document-allocations", format!("{} live allocations after a document parse ({})", u.live, d.is_ok()));
    }
    bounded(w, "a document", doc.len(), u);
    if let (Ok(d), Some(_)) = (&d, &tree) {
        free(w, "iterating a document", || {
            let mut it = d.iter();
            let mut n = 0;
            while let Some(x) = it.next() {
                n += usize::from(x == x.clone());
                black_box(it.clone());
            }
            let mut it = d.iter();
            it.skip_next_value();
            it.skip_next_value();
            (n, d == d)
        });
        w.traces += 1;
        let (v, u) = measure(|| d.iter().next_value());
        if u.live > all || (full == 0 && u.live > all.min(1)) {
            w.fail("value-allocations", format!("next_value holds {} allocations for {all} containers", u.live));
        }
        bounded(w, "next_value", doc.len(), u);
        drop(v);
    }
    drop(d);
    let u = clean(w, "a document parse", || Document::from_json_bytes_with_config(doc, pc));
    bounded(w, "a document parse", doc.len(), u);
    let u = clean(w, "a document converted to a value", || Document::from_json_bytes_with_config(doc, pc).map(Value::from));
    bounded(w, "a document converted to a value", doc.len(), u);
    // Value: one list per container
    w.traces += 1;
    let (v, u) = measure(|| Value::from_json_bytes_with_config(doc, pc));
    if u.live > if v.is_ok() { all } else { 0 } {
        w.fail("value-allocations", format!("{} live allocations after a value parse with {all} containers, ok {}", u.live, v.is_ok()));
    }
    bounded(w, "a value", doc.len(), u);
    if let (Ok(v), Some(_)) = (&v, &tree) {
        if let Ok(other) = Value::from_json_bytes_with_config(doc, pc) {
            value_use(w, v, &other);
        }
    }
    drop(v);
    clean(w, "a value parse", || Value::from_json_bytes_with_config(doc, pc));
    if let Some(s) = text {
        let u = clean(w, "a value parse from text", || Value::from_json_with_config(s, pc));
        bounded(w, "a value parse from text", doc.len(), u);
        clean(w, "a document parse from text", || Document::from_json_with_config(s, pc));
        if doc.len() < 3000 && tree.is_some() {
            clean(w, "printing to a string", || Value::from_json_with_config(s, pc).map(|v| (v.to_json(), v.to_json_pretty())));
        }
        lone(w, s);
    }
}

/// A decoded string holds one allocation if it is escaped, none otherwise; an encoded text none
/// if it needs no escapes.
fn lone(w: &mut W, text: &str) {
    if text.len() < 400 {
        if let Ok(s) = JsonString::from_json(text) {
            w.traces += 1;
            let (d, u) = measure(|| s.decode_if_needed());
            let want = i64::from(matches!(d, AnyStr::Owned(_)));
            if u.live > want {
                w.fail("decode-allocations", format!("decode_if_needed keeps {} allocations", u.live));
            }
            drop(d);
            clean(w, "decoding", || (s.decode_if_needed(), s.decoded().collect::<String>()));
        }
        let s = free(w, "a string from text", || JsonString::from(text));
        string_use(w, &s);
        clean(w, "encoding", || (s.escape_if_needed(), s.decode_if_needed()));
        let owned = text.to_string();
        free(w, "a string from owned text", || {
            let s = JsonString::from(owned);
            black_box(s.len())
        });
    }
}

/// Rejected documents: every kind of fault after every container is open.
fn faults(tier: Tier) -> Family {
    let open = ["[", "{\"a\":", "[[],", "{\"a\":[1],\"b\":", "[\"\\n\",", "[[[0]],{\"k\":\"v\"},"];
    let bad = ["", "]", "}", ",", "x", "\"", "\"\\ud800\"", "1.", "nul", "1 1", "[", "[1,,", "{\"a\" 1", "\"\\q", "\u{1}"];
    let depth = tier.pick(4, 5);
    let mut tasks = Vec::new();
    for a in open {
        tasks.push(gen::task(move |sink| {
            let mut stack = vec![(a.to_string(), 1)];
            while let Some((s, d)) = stack.pop() {
                for b in bad {
                    sink(format!("{s}{b}").as_bytes());
                }
                if d < depth {
                    for o in open {
                        stack.push((format!("{s}{o}"), d + 1));
                    }
                }
            }
        }));
    }
    gen::family("every fault inside every nest of containers", tasks)
}

fn families(tier: Tier) -> Vec<Family> {
    let mut v = vec![
        gen::trees(tier.pick(5, 6), 4, true, 3),
        gen::token_trie(CFG, tier.pick(6, 7)),
        gen::cover(CFG, 2, false),
        faults(tier),
        gen::mutations(false),
        gen::words("string atoms", &gen::all_atoms(), tier.pick(2, 3), b"[\"", b"\"]"),
        gen::words("lone string atoms", &gen::good_atoms(), tier.pick(2, 3), b"\"", b"\""),
        gen::positions("lone string", gen::good_atoms(), tier.pick(20, 60), b"\"", b"\""),
        gen::wide(tier),
        gen::pumps(tier),
        gen::telling(),
        gen::class_bytes(tier.pick(3, 4)),
    ];
    v.extend(gen::far(tier, vec![b"\\n".to_vec(), b"\xff".to_vec(), "\u{e9}".into()]));
    v.extend(gen::numbers(tier.pick(4, 5)));
    v
}

fn main() {
    engine::main(Check {
        id: "C29",
        level: Level::ModelChecking,
        rule: "states: distinct reference trees; transitions: distinct texts; each trace is one operation of the real library run under a counting allocator and held against the number of containers in the reference tree (none for what builds nothing, one list for a document, one per container for a value, none left after a drop or an error)",
        assumptions: &["memory in proportion means at most 1024 bytes per byte of input and 4096 more"],
        families,
        judge,
        stack_mb: 0,
        show: engine::show_bytes,
    })
}
