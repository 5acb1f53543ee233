//! C06: everything exposed is well-formed UTF-8 borrowed from the input.
use jjmc::engine::{self, Check, Family, Level, Tier, W};
use jjmc::pda::Cfg;
use jjmc::{gen, rp, util};
use justjson::doc::{Document, Node};
use justjson::parser::{Token, Tokenizer};
use justjson::{AnyStr, JsonNumber, JsonString, Value};

/// Where `s` lies inside `doc`, if it does.
fn range(doc: &[u8], s: &[u8]) -> Option<(usize, usize)> {
    let a = (s.as_ptr() as usize).checked_sub(doc.as_ptr() as usize)?;
    (a + s.len() <= doc.len()).then_some((a, a + s.len()))
}

fn utf8(w: &mut W, what: &str, s: &str) -> bool {
    // The bytes are inspected, the type's promise is not relied on.
    let ok = std::str::from_utf8(std::hint::black_box(s.as_bytes())).is_ok();
    if !ok {
        w.fail("invalid-utf8", format!("{what} exposes {:02x?}", s.as_bytes()));
    }
    ok
}

fn chars(w: &mut W, what: &str, it: impl Iterator<Item = char>) -> bool {
    for c in it {
        let v = std::hint::black_box(c as u32);
        if v > 0x10ffff || (0xd800..0xe000).contains(&v) {
            w.fail("invalid-char", format!("{what} yields the character {v:#x}"));
            return false;
        }
    }
    true
}

fn string(w: &mut W, doc: &[u8], s: &JsonString<'_>, want: Option<(usize, usize)>, what: &str) {
    w.traces += 1;
    let Some(src) = s.as_json_str() else {
        w.fail("not-json", format!("{what}: no JSON source"));
        return;
    };
    if !matches!(src, AnyStr::Borrowed(_)) {
        w.fail("not-borrowed", format!("{what}: owned source"));
    }
    let src = src.as_str();
    if !utf8(w, what, src) {
        return;
    }
    let r = range(doc, src.as_bytes());
    match (r, want) {
        (None, _) => w.fail("not-borrowed", format!("{what}: not a part of the input")),
        (Some(r), Some(x)) if r != x && !(r.0 == r.1 && x.0 == x.1) => {
            w.fail("wrong-range", format!("{what}: {r:?}, expected {x:?}"));
        }
        (Some((a, b)), None) => {
            let quoted = a > 0 && doc[a - 1] == b'"' && doc.get(b) == Some(&b'"');
            if !quoted {
                w.fail("wrong-range", format!("{what}: {a}..{b} is not between quotes"));
            }
        }
        _ => {}
    }
    let esc = src.contains('\\');
    // Bounded so that a decoder that runs past the source is seen, not followed.
    if !chars(w, what, s.decoded().take(src.len() + 1)) || !chars(w, what, s.as_json().take(src.len() + 1)) {
        return;
    }
    let d = s.decode_if_needed();
    if !utf8(w, what, d.as_str()) {
        return;
    }
    match (&d, esc) {
        (AnyStr::Borrowed(b), false) if range(doc, b.as_bytes()) == r => {}
        (AnyStr::Owned(_), true) => {}
        _ => w.fail("decode-allocation", format!("{what}: escapes {esc}, decoded to {d:?}")),
    }
    match (s.as_str(), esc) {
        (Some(t), false) if range(doc, t.as_bytes()) == r => {}
        (None, true) => {}
        (t, _) => w.fail("as-str", format!("{what}: escapes {esc}, as_str {t:?}")),
    }
    match s.escape_if_needed() {
        AnyStr::Borrowed(b) if range(doc, b.as_bytes()) == r => {}
        other => w.fail("escape-borrow", format!("{what}: escape_if_needed gives {other:?}")),
    }
}

fn number(w: &mut W, doc: &[u8], n: &JsonNumber<'_>, want: Option<(usize, usize)>, what: &str) {
    w.traces += 1;
    if !utf8(w, what, n.source()) {
        return;
    }
    let r = range(doc, n.source().as_bytes());
    if r.is_none() || (want.is_some() && r != want) {
        w.fail("wrong-range", format!("{what}: {r:?}, expected {want:?}"));
    }
}

fn value(w: &mut W, doc: &[u8], v: &Value<'_>, r: &rp::RVal) {
    match (v, r) {
        (Value::String(s), rp::RVal::Str(x)) => string(w, doc, s, Some(*x), "value string"),
        (Value::Number(n), rp::RVal::Num(x)) => number(w, doc, n, Some(*x), "value number"),
        (Value::Array(a), rp::RVal::Arr(b)) => {
            for (v, r) in a.iter().zip(b) {
                value(w, doc, v, r);
            }
        }
        (Value::Object(o), rp::RVal::Obj(b)) => {
            for (e, (k, r)) in o.iter().zip(b) {
                string(w, doc, &e.key, Some(*k), "object key");
                value(w, doc, &e.value, r);
            }
        }
        _ => {}
    }
}

fn tokens<const G: bool>(w: &mut W, doc: &[u8], t: &mut Tokenizer<'_, G>, what: &str) {
    let mut at = Some(0);
    for _ in 0..doc.len() + 4 {
        let tok = match t.next() {
            None => break,
            Some(Err(_)) => {
                // After an error only well-formedness and borrowing are claimed.
                at = None;
                continue;
            }
            Some(Ok(t)) => t,
        };
        let mut want = None;
        if let Some(a) = at {
            if let rp::Lex::Tok { tk, start, end } = rp::lex(doc, a) {
                want = Some(match tk {
                    rp::Tk::Str(s, e) => (s, e),
                    _ => (start, end),
                });
                at = Some(end);
            } else {
                at = None;
            }
        }
        match tok {
            Token::String(s) => string(w, doc, &s, want, what),
            Token::Number(n) => number(w, doc, &n, want, what),
            _ => {}
        }
    }
}

fn judge(doc: &[u8], w: &mut W) {
    let cfg = Cfg { trailing: true, limit: None, root_any: true };
    util::trace_pda(doc, &cfg, w);
    let text = std::str::from_utf8(doc).ok();
    tokens(w, doc, &mut Tokenizer::for_json_bytes(doc), "byte token");
    if let Some(s) = text {
        tokens(w, doc, &mut Tokenizer::for_json(s), "text token");
    }
    let pc = util::config(&cfg);
    // Whatever a parse returns is looked at, accepted by the reference or not.
    let tree = rp::parse(doc, &cfg);
    let mut nodes = Vec::new();
    if let Some(t) = &tree {
        rp::preorder(t, &mut nodes);
    }
    let mut one_value = |v: Value<'_>| match &tree {
        Some(t) => value(w, doc, &v, t),
        None => {
            fn any(w: &mut W, doc: &[u8], v: &Value<'_>) {
                match v {
                    Value::String(s) => string(w, doc, s, None, "value string"),
                    Value::Number(n) => number(w, doc, n, None, "value number"),
                    Value::Array(a) => a.iter().for_each(|v| any(w, doc, v)),
                    Value::Object(o) => o.iter().for_each(|e| {
                        string(w, doc, &e.key, None, "object key");
                        any(w, doc, &e.value);
                    }),
                    _ => {}
                }
            }
            any(w, doc, &v);
        }
    };
    if let Ok(v) = Value::from_json_bytes_with_config(doc, pc) {
        one_value(v);
    }
    if let Some(s) = text {
        if let Ok(v) = Value::from_json_with_config(s, pc) {
            one_value(v);
        }
    }
    let mut one_doc = |d: Document<'_>| {
        for (i, n) in d.iter().enumerate() {
            match (n, nodes.get(i)) {
                (Node::String(s), Some(rp::RNode::Str(a, b))) => string(w, doc, &s, Some((*a, *b)), "node string"),
                (Node::Number(n), Some(rp::RNode::Num(a, b))) => number(w, doc, &n, Some((*a, *b)), "node number"),
                (Node::String(s), _) => string(w, doc, &s, None, "node string"),
                (Node::Number(n), _) => number(w, doc, &n, None, "node number"),
                _ => {}
            }
        }
    };
    if let Ok(d) = Document::from_json_bytes_with_config(doc, pc) {
        one_doc(d);
    }
    if let Some(s) = text {
        if let Ok(d) = Document::from_json_with_config(s, pc) {
            one_doc(d);
        }
        if let Ok(x) = JsonString::from_json(s) {
            string(w, doc, &x, tree.as_ref().and_then(|t| if let rp::RVal::Str(r) = t { Some(*r) } else { None }), "lone string");
        }
        if let Ok(x) = JsonNumber::from_json(s) {
            number(w, doc, &x, tree.as_ref().and_then(|t| if let rp::RVal::Num(r) = t { Some(*r) } else { None }), "lone number");
        }
    }
}

/// Broken strings followed by more strings, for tokens after an error.
fn after_error(tier: Tier) -> Vec<Family> {
    let mut v: Vec<Vec<u8>> = gen::bad_atoms();
    v.extend(["\"", "\"", "a", "\u{e9}", "\\u00e9", "\\ud83d\\ude39", "[", "1"].iter().map(|s| s.as_bytes().to_vec()));
    vec![
        gen::words("bad atoms then a string", &v, tier.pick(3, 4), b"\"", b"\" \"x\xc3\xa9\\u00e9\""),
        gen::words("bad atoms in the open", &v, tier.pick(2, 3), b"", b"\"\\ud83d\\ude39\"1.5"),
    ]
}

/// Sequences of UTF-8 lead and continuation bytes inside a string.
fn utf8_bytes(tier: Tier) -> Family {
    let alpha = gen::singles(b"a\"\\\x7f\x80\x8f\x90\x9f\xa0\xbf\xc0\xc1\xc2\xdf\xe0\xe1\xec\xed\xee\xef\xf0\xf1\xf3\xf4\xf5\xff");
    gen::words("UTF-8 boundary bytes in a string", &alpha, tier.pick(4, 5), b"\"", b"\"")
}

fn families(tier: Tier) -> Vec<Family> {
    let mut v = gen::universe(tier, Cfg { trailing: true, limit: Some(128), root_any: true });
    v.push(gen::scalar_gaps(tier.pick(7, 1), tier.pick(31, 3)));
    v.extend(after_error(tier));
    v.push(utf8_bytes(tier));
    v.push(gen::all_scalars(true, 1));
    v.push(gen::all_pairs(true));
    v
}

fn main() {
    engine::main(Check {
        id: "C06",
        level: Level::ModelChecking,
        rule: "states/transitions of the reference acceptor driven by the texts; each trace inspects one string or number obtained from the real tokenizer, value, document or lone parse: its bytes are validated, and its address range is compared with the range computed by the reference lexer",
        assumptions: &["an unchecked char conversion of an invalid value aborts (unsafe precondition checks are on) and is then reported as a crash"],
        families,
        judge,
        stack_mb: 0,
        show: engine::show_bytes,
    })
}
