//! Uses of the library, each of which runs from its own arguments to a transcript of all it gave,
//! and which call a gate wherever the library calls out (to a delegate, a sink, a hasher) or
//! returns between steps.
use justjson::doc::{Document, HeaplessDocument, Node};
use justjson::parser::{JsonKind, ParseConfig, ParseDelegate, Parser, Tokenizer};
use justjson::{AnyStr, Entry, JsonNumber, JsonString, Object, Value};
use std::fmt::{Debug, Write};
use std::hash::{Hash, Hasher};

pub type Gate<'g> = &'g dyn Fn();

/// A sink that passes the gate at every write, and refuses the `fail`th.
struct Out<'g> {
    gate: Gate<'g>,
    text: String,
    left: usize,
}
impl Write for Out<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        (self.gate)();
        if self.left == 0 {
            return Err(std::fmt::Error);
        }
        self.left -= 1;
        self.text.push_str(s);
        Ok(())
    }
}
struct Feed<'g> {
    gate: Gate<'g>,
    fed: String,
}
impl Hasher for Feed<'_> {
    fn write(&mut self, b: &[u8]) {
        (self.gate)();
        let _ = write!(self.fed, "{b:?}");
    }
    fn finish(&self) -> u64 {
        0
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Fault {
    None,
    Error(usize),
    Panic(usize),
}

/// A delegate that logs its calls and passes the gate at every `every`th of them.
struct Logger<'g, 'l> {
    gate: Gate<'g>,
    log: &'l mut String,
    calls: usize,
    every: usize,
    fault: Fault,
}
impl Logger<'_, '_> {
    fn call(&mut self, what: std::fmt::Arguments<'_>) -> Result<usize, String> {
        self.calls += 1;
        let _ = write!(self.log, "{what};");
        if self.calls % self.every == 0 {
            (self.gate)();
        }
        match self.fault {
            Fault::Error(n) if n == self.calls => Err(format!("refused {n}")),
            Fault::Panic(n) if n == self.calls => panic!("delegate"),
            _ => Ok(self.calls),
        }
    }
}
fn text(s: &JsonString<'_>) -> String {
    format!("{}|{}|{}|{}|{:?}", s.decoded(), s.as_json(), s.len(), s.decoded_len(), s.as_str())
}
impl<'a> ParseDelegate<'a> for Logger<'_, '_> {
    type Value = (JsonKind, usize);
    type Object = (usize, usize);
    type Array = (usize, usize);
    type Key = usize;
    type Error = String;
    fn null(&mut self) -> Result<Self::Value, String> {
        Ok((JsonKind::Null, self.call(format_args!("null"))?))
    }
    fn boolean(&mut self, b: bool) -> Result<Self::Value, String> {
        Ok((JsonKind::Boolean, self.call(format_args!("{b}"))?))
    }
    fn number(&mut self, n: JsonNumber<'a>) -> Result<Self::Value, String> {
        Ok((JsonKind::Number, self.call(format_args!("{}", n.source()))?))
    }
    fn string(&mut self, s: JsonString<'a>) -> Result<Self::Value, String> {
        Ok((JsonKind::String, self.call(format_args!("{}", text(&s)))?))
    }
    fn begin_object(&mut self) -> Result<Self::Object, String> {
        Ok((self.call(format_args!("object"))?, 0))
    }
    fn object_key(&mut self, o: &mut Self::Object, k: JsonString<'a>) -> Result<usize, String> {
        self.call(format_args!("key {} {}", o.0, text(&k)))
    }
    fn object_value(&mut self, o: &mut Self::Object, k: usize, v: Self::Value) -> Result<(), String> {
        o.1 += 1;
        self.call(format_args!("member {o:?} {k} {v:?}")).map(|_| ())
    }
    fn object_is_empty(&self, o: &Self::Object) -> bool {
        o.1 == 0
    }
    fn end_object(&mut self, o: Self::Object) -> Result<Self::Value, String> {
        Ok((JsonKind::Object, self.call(format_args!("end {o:?}"))?))
    }
    fn begin_array(&mut self) -> Result<Self::Array, String> {
        Ok((self.call(format_args!("array"))?, 0))
    }
    fn array_value(&mut self, a: &mut Self::Array, v: Self::Value) -> Result<(), String> {
        a.1 += 1;
        self.call(format_args!("element {a:?} {v:?}")).map(|_| ())
    }
    fn array_is_empty(&self, a: &Self::Array) -> bool {
        a.1 == 0
    }
    fn end_array(&mut self, a: Self::Array) -> Result<Self::Value, String> {
        Ok((JsonKind::Array, self.call(format_args!("end {a:?}"))?))
    }
    fn kind_of(&self, v: &Self::Value) -> JsonKind {
        v.0
    }
}

fn show<T: Debug, E: Debug + std::fmt::Display>(r: Result<T, justjson::Error<E>>) -> String {
    match r {
        Ok(t) => format!("{t:?}"),
        Err(e) => format!("{:?} at {} ({e})", e.kind(), e.offset()),
    }
}

fn delegate(gate: Gate<'_>, doc: &[u8], config: ParseConfig, every: usize, fault: Fault) -> String {
    let mut log = String::new();
    let d = Logger { gate, log: &mut log, calls: 0, every, fault };
    let r = match std::str::from_utf8(doc) {
        Ok(t) if every % 2 == 1 => Parser::parse_json_with_config(t, config, d),
        _ => Parser::parse_json_bytes_with_config(doc, config, d),
    };
    let r = show(r);
    log + &r
}
fn unwinding(f: impl FnOnce() -> String) -> String {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| "panic".into())
}
fn nest(n: usize) -> String {
    "[".repeat(n) + &"]".repeat(n)
}

const DOC: &str = r#"[1,{"a\n":"b\ud83d\ude00"},[]]"#;
const RICH: &str = r#" { "k" : [ 1.50 , -0 , true , null , "x\"y" ] , "\u006b" : { } , "e" : [ ] } "#;

fn tokens(gate: Gate<'_>, doc: &[u8]) -> String {
    let mut t = Tokenizer::for_json_bytes(doc);
    let mut o = String::new();
    for i in 0..40 {
        gate();
        if i % 2 == 0 {
            let _ = write!(o, "{:?} ", t.peek());
        }
        match t.next() {
            Some(Ok(x)) => {
                let _ = write!(o, "{x:?}@{} ", t.offset());
            }
            Some(Err(e)) => {
                let _ = write!(o, "{:?}@{} ", e.kind(), e.offset());
            }
            None => break,
        }
    }
    o
}

pub const NAMES: &[&str] = &[
    "delegate parse of a small document",
    "delegate parse that is refused",
    "delegate parse over its limit",
    "delegate parse that panics deep inside",
    "delegate parse of a broken document",
    "delegate parse 100 deep",
    "value from text, printed",
    "value printed prettily to a sink",
    "value printed to a sink that fails",
    "document, iterated",
    "document into a value",
    "document that does not fit",
    "tokens of a text",
    "tokens of a broken text",
    "decoding, step by step",
    "encoding, step by step",
    "comparing strings",
    "hashing strings",
    "numbers",
    "128 deep",
    "129 deep",
    "300 deep without a limit",
    "trailing commas",
    "editing an object",
    "a lone string and a lone number",
    "owned and borrowed texts",
    "a value built in code",
    "bytes that are no text",
    "a long string",
    "a wide array",
    "errors",
    "delegate parse whose limit equals its depth",
    "value of a strict configuration",
    "drops in the middle",
];
pub fn count() -> usize {
    NAMES.len()
}

/// Runs use `k`.
pub fn run(k: usize, gate: Gate<'_>) -> String {
    let c = ParseConfig::default();
    let mut o = String::new();
    match k {
        0 => delegate(gate, DOC.as_bytes(), c, 3, Fault::None),
        1 => delegate(gate, DOC.as_bytes(), c, 2, Fault::Error(5)),
        2 => delegate(gate, b"[[1],[2,[3]]]", c.with_recursion_limit(2), 3, Fault::None),
        3 => unwinding(|| delegate(gate, nest(60).as_bytes(), c, 17, Fault::Panic(55))),
        4 => delegate(gate, br#"[1,{"a" 2}]"#, c, 1, Fault::None),
        5 => delegate(gate, nest(100).as_bytes(), c, 60, Fault::None),
        6 => {
            let v = Value::from_json(RICH);
            gate();
            let v = v.unwrap();
            o += &v.to_json();
            gate();
            o + &v.to_json_pretty()
        }
        7 => {
            let v = Value::from_json(r#"{"a":[1,"b"]}"#).unwrap();
            let mut s = Out { gate, text: o, left: 1000 };
            let r = v.pretty_write_json_to_custom(" ", "\n", &mut s);
            format!("{} {r:?}", s.text)
        }
        8 => {
            let v = Value::from_json(RICH).unwrap();
            let mut s = Out { gate, text: o, left: 4 };
            let r = v.write_json_to(&mut s);
            format!("{} {r:?}", s.text)
        }
        9 => {
            let d = Document::from_json(DOC).unwrap();
            for n in d.iter() {
                gate();
                let _ = write!(o, "{n:?} ");
            }
            o
        }
        10 => {
            let d = Document::from_json(RICH).unwrap();
            gate();
            let v = Value::from(d);
            gate();
            format!("{v:?} {v}")
        }
        11 => {
            let d = HeaplessDocument::<3>::from_json("[1,2,3]");
            gate();
            let e = HeaplessDocument::<4>::from_json("[1,2,3]").map(|d| d.iter().count());
            format!("{} {}", show(d.map(|d| d.iter().count())), show(e))
        }
        12 => tokens(gate, br#"[1, "a\t" ]"#),
        13 => tokens(gate, b"{\"a\":tru,\"\xff\" 01"),
        14 => {
            let s = JsonString::from_json(r#""a\u0041\ud83d\ude00\n""#).unwrap();
            for c in s.decoded() {
                gate();
                o.push(c);
            }
            o + s.decode_if_needed().as_str()
        }
        15 => {
            let s = JsonString::from("\"\u{1}");
            for c in s.as_json() {
                gate();
                o.push(c);
            }
            o + s.escape_if_needed().as_str()
        }
        16 => {
            let list: Vec<JsonString<'_>> = vec![
                JsonString::from("a\nb"),
                JsonString::from_json(r#""a\nb""#).unwrap(),
                JsonString::from_json(r#""a\u000ac""#).unwrap(),
                JsonString::from("ab"),
            ];
            for a in &list {
                gate();
                for b in &list {
                    let _ = write!(o, "{}{:?} ", a == b, a.cmp(b));
                }
                let _ = write!(o, "{} ", *a == "a\nb");
            }
            o
        }
        17 => {
            let mut f = Feed { gate, fed: o };
            JsonString::from("a\nb").hash(&mut f);
            JsonString::from_json(r#""\u0061""#).unwrap().hash(&mut f);
            AnyStr::Borrowed("xy").hash(&mut f);
            f.fed
        }
        18 => {
            for n in ["-0", "255", "1e400", "0.1", "340282366920938463463374607431768211456", "-128"] {
                let n = JsonNumber::from_json(n).unwrap();
                let _ = write!(o, "{:?}{:?}{:?}{:?}{:?}{:?} ", n.as_u8(), n.as_i8(), n.as_u128(), n.as_i128(), n.as_f32(), n.as_f64().map(f64::to_bits));
            }
            gate();
            o
        }
        19 => show(Value::from_json(&nest(128))),
        20 => show(Value::from_json(&nest(129))),
        21 => {
            let t = nest(300);
            o += &show(Value::from_json_with_config(&t, c.without_recursion_limit()).map(|v| v.to_json()));
            gate();
            o + &show(Parser::validate_json_bytes_with_config(t.as_bytes(), c.without_recursion_limit()))
        }
        22 => {
            o += &show(Value::from_json_with_config("[1,{\"a\":2,},]", c.allowing_trailing_commas()));
            gate();
            o + &show(Value::from_json("[1,]"))
        }
        23 => {
            let mut v = Value::from_json(r#"{"a":1,"b":{"c":[]},"a":2}"#).unwrap();
            let _ = write!(o, "{:?} {:?} ", v.get("a"), v.get("zz"));
            *v.get_mut("b").unwrap() = Value::from("new\n");
            gate();
            let obj = v.as_object_mut().unwrap();
            obj.push(Entry::new("d\"", Value::Number(JsonNumber::from_json("5").unwrap())));
            obj.swap(0, 2);
            gate();
            let _ = write!(o, "{v} {v:?}");
            o
        }
        24 => {
            for s in [r#""a\tb""#, r#""a"#, "\"\u{1}\"", r#""\ud800""#, "1"] {
                o += &show(JsonString::from_json(s).map(|s| text(&s)));
                gate();
            }
            for s in ["12", "-", "01", "\"\""] {
                o += &show(JsonNumber::from_json(s));
            }
            o
        }
        25 => {
            let a = [AnyStr::Borrowed("ab"), AnyStr::Owned("ab".into()), AnyStr::Owned("b".into())];
            for x in &a {
                gate();
                for y in &a {
                    let _ = write!(o, "{}{:?} ", x == y, x.partial_cmp(y.as_str()));
                }
            }
            o
        }
        26 => {
            let obj: Object<'_> = [("q\"", Value::Number(JsonNumber::from_json("1").unwrap())), ("r", Value::from("\u{7f}\u{0}")), ("s", Value::from(vec![Value::Null, Value::from(false)]))].into_iter().map(|(k, v)| Entry::new(k, v)).collect();
            let v = Value::from(obj);
            let mut s = Out { gate, text: o, left: 1000 };
            let r = v.write_json_to(&mut s);
            format!("{} {r:?} {}", s.text, v.to_json_pretty_custom("\t", "\r\n"))
        }
        27 => {
            for b in [&b"[\"\xc3\x28\"]"[..], b"[\"\xe2\x82\xac\"]", b"\"\xf0\x9f\x98", b"\xef\xbb\xbf[]", b"[\xe2\x82\xac]"] {
                o += &show(Value::from_json_bytes(b));
                gate();
            }
            o
        }
        28 => {
            let t = format!("\"{}\"", "plain\u{e9}\\u00e9\\n".repeat(30));
            let s = JsonString::from_json(&t).unwrap();
            gate();
            let d: String = s.decoded().collect();
            gate();
            format!("{} {}", text(&s), text(&JsonString::from(d)))
        }
        29 => {
            let t = format!("[{}7]", "1,{},\"x\",".repeat(100));
            let d = Document::from_json(&t).unwrap();
            gate();
            let v = d.iter().next_value();
            gate();
            format!("{} {}", v == Some(Value::from(d)), v.map_or(o, |v| v.to_json()))
        }
        30 => {
            for t in ["", "[", "{", "{\"a\"", "{\"a\":", "[1 2]", "nul", "\"", "\"\\x\"", "[1]]", "{1:2}", "-", "1.", "1e", "\u{e9}"] {
                o += &show(Parser::validate_json(t));
            }
            gate();
            o
        }
        31 => delegate(gate, nest(30).as_bytes(), c.with_recursion_limit(30), 20, Fault::None) + &delegate(gate, nest(31).as_bytes(), c.with_recursion_limit(30), 20, Fault::None),
        32 => {
            let s = ParseConfig::strict();
            gate();
            o += &show(Value::from_json_with_config("{\"a\":[1]}", s));
            o += &show(Value::from_json_with_config("[1,]", s));
            gate();
            o + &show(Value::from_json_with_config("1", s.allowing_all_types_at_root(false)))
        }
        _ => {
            let d = Document::from_json(RICH).unwrap();
            let mut i = d.iter();
            i.next();
            gate();
            i.skip_next_value();
            let j = i.clone();
            let n: Option<Node<'_>> = i.next();
            drop(i);
            gate();
            let s = JsonString::from("a\u{2}b");
            let mut e = s.as_json();
            e.nth(3);
            let f = e.clone();
            drop(e);
            format!("{n:?} {} {}", j.count(), f.collect::<String>())
        }
    }
}
