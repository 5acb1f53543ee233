//! C28: values built in code print to JSON that parses back to an equal value.
use jjmc::engine::{self, hash_bytes, mix, Check, Family, Level, Task, Tier, W};
use jjmc::pda::{self, Cfg, Pda};
use jjmc::rp::{self, RVal};
use jjmc::{gen, util};
use justjson::{Entry, JsonNumber, JsonString, Object, Value};

/// What was built.
#[derive(Debug)]
enum M {
    Null,
    Bool(bool),
    Num(&'static str),
    Str(String),
    Arr(Vec<M>),
    Obj(Vec<(String, M)>),
}

/// A program is a construction style and a tree in prefix form: a leaf code, `[` trees `]`, or
/// `{` (key code, tree)* `}`.
struct Build<'p> {
    style: u8,
    code: &'p [u8],
    at: usize,
}

const NUMS: [(&str, u8); 3] = [("0", b'0'), ("-12.50E+3", b'1'), ("123456789012345678901234567890", b'2')];

fn leaf_text(c: u8) -> &'static str {
    match c {
        b'a' => "a",
        b'q' => "say \"hi\"\\",
        b'c' => "\u{0}\u{1f}\u{7f}\n\t\r\u{c}\u{8}\u{7}",
        b'u' => "\u{e9}\u{2028}\u{1f639}\u{ffff}",
        b'e' => "",
        _ => "/\\u0041",
    }
}

impl<'p> Build<'p> {
    fn text(&self, c: u8) -> (JsonString<'static>, String) {
        match c {
            // parsed with escapes; its decoded text
            b'j' => (JsonString::from_json("\"\\u0061\\n\\/\\ud83d\\uDE39\"").unwrap(), "a\n/\u{1f639}".into()),
            b'k' => (JsonString::from_json("\"plain\"").unwrap(), "plain".into()),
            c => {
                let t = leaf_text(c);
                (if self.style & 1 == 0 { t.into() } else { t.to_string().into() }, t.to_string())
            }
        }
    }
    fn tree(&mut self) -> (Value<'static>, M) {
        let c = self.code[self.at];
        self.at += 1;
        match c {
            b'n' => (Value::Null, M::Null),
            b't' => (Value::from(true), M::Bool(true)),
            b'f' => (Value::Boolean(false), M::Bool(false)),
            b'0'..=b'2' => {
                let n = NUMS[usize::from(c - b'0')].0;
                (Value::Number(JsonNumber::from_json(n).unwrap()), M::Num(n))
            }
            b'[' => {
                let (mut vs, mut ms) = (Vec::new(), Vec::new());
                while self.code[self.at] != b']' {
                    let (v, m) = self.tree();
                    vs.push(v);
                    ms.push(m);
                }
                self.at += 1;
                let v = if self.style & 2 == 0 { Value::from(vs) } else { Value::Array(vs) };
                (v, M::Arr(ms))
            }
            b'{' => {
                let mut entries: Vec<(JsonString<'static>, Value<'static>)> = Vec::new();
                let mut ms = Vec::new();
                while self.code[self.at] != b'}' {
                    let (k, t) = self.text(self.code[self.at]);
                    self.at += 1;
                    let (v, m) = self.tree();
                    entries.push((k, v));
                    ms.push((t, m));
                }
                self.at += 1;
                let o: Object<'static> = match self.style & 6 {
                    0 => entries.into_iter().collect(),
                    2 => entries.into_iter().map(|(k, v)| Entry { key: k, value: v }).collect(),
                    4 => {
                        let mut o = Object::new();
                        for (k, v) in entries {
                            o.push(Entry::new(k, v));
                        }
                        o
                    }
                    _ => {
                        let mut o = Object::with_capacity(1);
                        for (k, v) in entries.into_iter().rev() {
                            o.insert(0, Entry::new(k, v));
                        }
                        o
                    }
                };
                (if self.style & 2 == 0 { o.into() } else { Value::Object(o) }, M::Obj(ms))
            }
            c => {
                let (s, t) = self.text(c);
                let v = match (c, self.style & 3) {
                    (b'j' | b'k', 0) => Value::String(s),
                    (b'j' | b'k', _) => Value::from(s),
                    (c, 0) => Value::from(leaf_text(c)),
                    (c, 1) => Value::from(leaf_text(c).to_string()),
                    _ => Value::from(s),
                };
                (v, M::Str(t))
            }
        }
    }
}

/// The text of `src` has exactly the built tree, by the reference parser and decoder.
fn same(m: &M, r: &RVal, src: &[u8]) -> bool {
    match (m, r) {
        (M::Null, RVal::Null) => true,
        (M::Bool(a), RVal::Bool(b)) => a == b,
        (M::Num(n), RVal::Num((a, b))) => n.as_bytes() == &src[*a..*b],
        (M::Str(t), RVal::Str((a, b))) => rp::decode(&src[*a..*b], util::bs()).as_deref() == Some(t),
        (M::Arr(x), RVal::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(m, r)| same(m, r, src)),
        (M::Obj(x), RVal::Obj(y)) => {
            x.len() == y.len()
                && x.iter().zip(y).all(|((k, m), ((a, b), r))| rp::decode(&src[*a..*b], util::bs()).as_ref() == Some(k) && same(m, r, src))
        }
        _ => false,
    }
}
/// The same, read through the library's own accessors.
fn reads(m: &M, v: &Value<'_>) -> bool {
    let text = |s: &JsonString<'_>, t: &str| s.decoded().eq(t.chars()) && *s == *t && s.decode_if_needed() == t;
    match (m, v) {
        (M::Null, Value::Null) => true,
        (M::Bool(a), Value::Boolean(b)) => a == b,
        (M::Num(n), Value::Number(x)) => x.source() == *n,
        (M::Str(t), Value::String(s)) => text(s, t),
        (M::Arr(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(m, v)| reads(m, v)),
        (M::Obj(x), Value::Object(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|((k, m), e)| text(&e.key, k) && reads(m, &e.value)),
        _ => false,
    }
}

fn round_trip(w: &mut W, v: &Value<'_>, m: &M) {
    let cfg = Cfg { trailing: false, limit: None, root_any: true };
    w.check(reads(m, v), "built", || format!("built {v:?}, expected {m:?}"));
    let compact = v.to_json();
    let pretty = v.to_json_pretty();
    let mut written = String::new();
    w.check(v.write_json_to(&mut written).is_ok() && written == compact, "forms", || format!("write_json_to {written:?}, to_json {compact:?}"));
    let shown = (v.to_string(), format!("{v:#}"));
    w.check(shown.0 == compact && shown.1 == pretty, "forms", || format!("displays {shown:?}, to_json {compact:?}"));
    let custom = v.to_json_pretty_custom("\t", "\r\n");
    let mut p = Pda::new();
    for (text, how) in [(&compact, "to_json"), (&pretty, "to_json_pretty"), (&custom, "to_json_pretty_custom")] {
        w.traces += 1;
        if !pda::accepts(text.as_bytes(), &cfg, &mut p) {
            w.fail("invalid", format!("{how} prints {text:?}"));
            continue;
        }
        match rp::parse(text.as_bytes(), &cfg) {
            Some(r) if same(m, &r, text.as_bytes()) => {}
            r => w.fail("content", format!("{how} prints {text:?} ({r:?}), built {m:?}")),
        }
        match Value::from_json(text) {
            Ok(back) => {
                w.check(back == *v && *v == back, "unequal", || format!("{how} prints {text:?}, which parses to an unequal {back:?}"));
                w.check(reads(m, &back), "content", || format!("{how} prints {text:?}, which parses to {back:?}"));
                w.check(back.to_json() == compact, "reprint", || format!("{how} prints {text:?}, which prints as {:?}", back.to_json()));
            }
            Err(e) => w.fail("invalid", format!("{how} prints {text:?}: {e:?}")),
        }
    }
}

fn shape(m: &M) -> u64 {
    match m {
        M::Null => 1,
        M::Bool(b) => 2 + u64::from(*b),
        M::Num(s) => hash_bytes(4, s.as_bytes()),
        M::Str(s) => hash_bytes(5, s.as_bytes()),
        M::Arr(v) => v.iter().fold(6, |h, v| mix(h, shape(v))),
        M::Obj(v) => v.iter().fold(7, |h, (k, v)| mix(mix(h, hash_bytes(8, k.as_bytes())), shape(v))),
    }
}

const WAYS: u8 = 10;
const OUTSIDES: u8 = 5;

/// A container of n members, made in one of ten ways, put somewhere.
fn wide(w: &mut W, way: u8, outside: u8, n: usize) {
    let key = |i: usize| ["k", "a\nb", "\u{e9}", "key"][i % 4].to_string() + &(i / 3).to_string();
    let member = |i: usize| match i % 4 {
        0 => (Value::Null, M::Null),
        1 => (Value::from(key(i)), M::Str(key(i))),
        2 => (Value::from(vec![Value::from(i % 8 == 2)]), M::Arr(vec![M::Bool(i % 8 == 2)])),
        _ => (Value::Object(Object::with_capacity(i % 5)), M::Obj(vec![])),
    };
    let (v, m): (Value<'static>, M) = if way < 6 {
        let m = (0..n).map(|i| (key(i), member(i).1)).collect();
        let entries = (0..n).map(|i| Entry::new(key(i), member(i).0));
        let mut o = match way {
            0 => entries.collect(),
            1 => entries.map(|e| (e.key, e.value)).collect(),
            2 => Object::with_capacity(n),
            3 => Object::with_capacity(4 * n + 9),
            4 => Object::new(),
            _ => Object::default(),
        };
        match way {
            2..=4 => {
                for i in 0..n {
                    o.push(Entry::new(key(i), member(i).0));
                }
            }
            5 => {
                // More than that, most of it taken out again.
                for i in (0..n).rev() {
                    for _ in 0..3 {
                        o.insert(0, Entry::new(key(i), member(i).0));
                    }
                    o.drain(..2);
                }
                for _ in 0..n {
                    o.push(Entry::new("x", "x"));
                }
                o.truncate(n);
            }
            _ => {}
        }
        (Value::from(o), M::Obj(m))
    } else {
        let m = (0..n).map(|i| member(i).1).collect();
        let mut a: Vec<Value<'static>> = match way {
            6 => (0..n).map(|i| member(i).0).collect(),
            7 => Vec::with_capacity(4 * n + 9),
            _ => Vec::new(),
        };
        if way > 6 {
            for i in 0..n {
                a.push(member(i).0);
            }
        }
        if way == 9 {
            a.reserve_exact(10 * n + 1);
        }
        (if way == 8 { Value::from(a) } else { Value::Array(a) }, M::Arr(m))
    };
    let (v, m) = match outside {
        0 => (v, m),
        1 => (Value::from(vec![v]), M::Arr(vec![m])),
        2 => (Value::from([Entry::new("a", v)].into_iter().collect::<Object>()), M::Obj(vec![("a".into(), m)])),
        3 => {
            // The container itself goes into the entry, not the value made from it.
            let e = match v {
                Value::Object(o) => Entry::new(String::from("\n"), o),
                Value::Array(a) => Entry::new(String::from("\n"), a),
                v => Entry::new("\n", v),
            };
            let o: Object<'_> = [Entry::new("z", true), e, Entry::new("y", "y")].into_iter().collect();
            (Value::Object(o), M::Obj(vec![("z".into(), M::Bool(true)), ("\n".into(), m), ("y".into(), M::Str("y".into()))]))
        }
        _ => (Value::from(vec![Value::Null, v, Value::from("z")]), M::Arr(vec![M::Null, m, M::Str("z".into())])),
    };
    let s = shape(&m);
    w.state(s);
    w.edge(s, u64::from(way));
    round_trip(w, &v, &m);
}

fn judge(case: &[u8], w: &mut W) {
    let Some((&tag, rest)) = case.split_first() else { return };
    match tag {
        b'X' => {
            let mut b = Build { style: rest[0] - b'0', code: &rest[1..], at: 0 };
            let (v, m) = b.tree();
            let s = shape(&m);
            w.state(s);
            w.edge(s, u64::from(rest[0]));
            round_trip(w, &v, &m);
        }
        b'W' => {
            let [way, outside, n @ ..] = rest else { return };
            let Ok(n) = n.try_into().map(u32::from_le_bytes) else { return };
            wide(w, *way, *outside, n as usize);
        }
        _ => {
            // One text in every role.
            let Ok(t) = std::str::from_utf8(rest) else { return };
            let s = hash_bytes(1, rest);
            w.state(s);
            for role in 0..4 {
                w.edge(s, role);
            }
            let m = || M::Str(t.to_string());
            round_trip(w, &Value::from(t), &m());
            if t.len() > 5000 {
                return round_trip(w, &Value::from(t.to_string()), &m());
            }
            let o: Object<'_> = [Entry::new(t, t), Entry::new(t.to_string(), t.to_string())].into_iter().collect();
            round_trip(
                w,
                &Value::from(vec![Value::from(t.to_string()), Value::from(o)]),
                &M::Arr(vec![m(), M::Obj(vec![(t.to_string(), m()), (t.to_string(), m())])]),
            );
        }
    }
}

/// All programs of exactly n nodes.
fn programs(n: usize, leaves: &[u8], keys: &[u8], memo: &mut Vec<Vec<Vec<u8>>>) -> Vec<Vec<u8>> {
    if memo.len() > n {
        return memo[n].clone();
    }
    let mut out: Vec<Vec<u8>> = Vec::new();
    if n == 1 {
        out.extend(leaves.iter().map(|l| vec![*l]));
        out.push(b"[]".to_vec());
        out.push(b"{}".to_vec());
    } else {
        fn lists(left: usize, object: bool, leaves: &[u8], keys: &[u8], memo: &mut Vec<Vec<Vec<u8>>>, buf: &[u8], out: &mut Vec<Vec<u8>>) {
            if left == 0 {
                let mut v = buf.to_vec();
                v.push(if object { b'}' } else { b']' });
                out.push(v);
                return;
            }
            for k in 1..=left {
                for t in programs(k, leaves, keys, memo) {
                    if object {
                        for key in keys {
                            let v = [buf, &[*key], &t].concat();
                            lists(left - k, object, leaves, keys, memo, &v, out);
                        }
                    } else {
                        lists(left - k, object, leaves, keys, memo, &[buf, &t].concat(), out);
                    }
                }
            }
        }
        lists(n - 1, false, leaves, keys, memo, b"[", &mut out);
        lists(n - 1, true, leaves, keys, memo, b"{", &mut out);
    }
    if memo.len() == n {
        memo.push(out.clone());
    }
    out
}

fn trees(name: &str, n: usize, leaves: &[u8], keys: &[u8]) -> Family {
    let mut memo = vec![Vec::new()];
    let mut all = Vec::new();
    for k in 1..=n {
        all.extend(programs(k, leaves, keys, &mut memo));
    }
    let tasks: Vec<Task> = all
        .chunks(400)
        .map(|c| {
            let c = c.to_vec();
            gen::task(move |sink| {
                for p in &c {
                    for style in b"01234567" {
                        sink(&[b"X", &[*style][..], p].concat());
                    }
                }
            })
        })
        .collect();
    gen::family(&format!("{name}: all values of <={n} nodes, {} leaves, {} keys, 8 ways to build", leaves.len(), keys.len()), tasks)
}

fn families(tier: Tier) -> Vec<Family> {
    let chars: Vec<Vec<u8>> = (0u8..0x20).map(|b| vec![b]).chain(["\"", "\\", "/", "a", "u", "\u{7f}", "\u{80}", "\u{2028}", "\u{ffff}", "\u{1f639}"].iter().map(|s| s.as_bytes().to_vec())).collect();
    let few: Vec<Vec<u8>> = ["\"", "\\", "\n", "\u{1}", "\u{7}", "\u{8}", "u", "0", "\u{e9}", "\u{1f639}"].iter().map(|s| s.as_bytes().to_vec()).collect();
    let mut scalars: Vec<Task> = Vec::new();
    for block in 0..0x110u32 {
        scalars.push(gen::task(move |sink| {
            for k in 0..0x1000u32 {
                let Some(c) = char::from_u32(block << 12 | k) else { continue };
                sink(format!("T{c}").as_bytes());
            }
        }));
    }
    let mut long: Vec<Task> = Vec::new();
    for chunk in gen::pump_sizes(tier).chunks(4) {
        let chunk = chunk.to_vec();
        long.push(gen::task(move |sink| {
            for &n in &chunk {
                for (x, y) in [("a", "\""), ("a", "\n"), ("\n", "a"), ("\u{1}", "\\"), ("\u{e9}", "\t"), ("\u{1f639}", ""), ("\\", "u0041"), (" ", "\u{0}")] {
                    sink(format!("T{}{y}", x.repeat(n)).as_bytes());
                    sink(format!("T{y}{}", x.repeat(n)).as_bytes());
                    if n < 200 {
                        sink(format!("T{}{y}{}", x.repeat(n), x.repeat(n)).as_bytes());
                    }
                }
            }
        }));
    }
    let mut sizes: Vec<usize> = (0..=tier.pick(100, 300)).collect();
    for b in tier.pick(vec![128, 256, 1024, 4096], vec![512, 1024, 4096, 65536]) {
        sizes.extend(b - 1..=b + 1);
    }
    let wide: Vec<Task> = sizes
        .into_iter()
        .map(|n| {
            gen::task(move |sink| {
                for way in 0..WAYS {
                    for outside in (0..OUTSIDES).filter(|o| n < 2000 || *o == way % OUTSIDES) {
                        sink(&[&[b'W', way, outside][..], &(n as u32).to_le_bytes()].concat());
                    }
                }
            })
        })
        .collect();
    vec![
        gen::family("containers of every size, in ten ways, in five places", wide),
        trees("many leaves", tier.pick(3, 4), b"nt01aqcuejk", b"aqcej"),
        trees("fewer leaves", tier.pick(4, 5), b"f2qj", b"qk"),
        trees("few leaves", tier.pick(5, 6), b"ne", b"c"),
        gen::words("texts over every control character", &chars, tier.pick(3, 3), b"T", b""),
        gen::words("texts over few characters", &few, tier.pick(4, 6), b"T", b""),
        gen::positions("texts", few.clone(), tier.pick(40, 80), b"T", b""),
        gen::family("every scalar value", scalars),
        gen::json_texts(tier.pick(4, 5), b"T"),
        gen::family("long texts", long),
    ]
}

fn main() {
    engine::main(Check {
        id: "C28",
        level: Level::ModelChecking,
        rule: "state = value of the construction model; transition = (state, way of building it); each trace builds a real value through the public constructors, prints it in one form, validates the text with the reference acceptor, compares its reference tree with what was built, parses it with the library and compares equality and content",
        assumptions: &["Numbers have no public constructor but parsing", "What the escape \\b stands for (known finding of C07/C08) is taken from the library"],
        families,
        judge,
        stack_mb: 0,
        show: engine::show_bytes,
    })
}
