//! C07: decoding a JSON string yields the text RFC 8259 assigns to it.
use jjmc::engine::{self, Check, Family, Level, Tier, W};
use jjmc::pda::Cfg;
use jjmc::{gen, rp, util};
use justjson::doc::{Document, Node};
use justjson::parser::{Token, Tokenizer};
use justjson::{AnyStr, JsonString, JsonStringInfo, Value};

/// Everything that describes the decoded text agrees with `want`.
fn string(w: &mut W, s: &JsonString<'_>, content: &str, want: &str, how: &str) {
    w.traces += 1;
    let got: String = s.decoded().take(want.len() + 2).collect();
    let mut want = want;
    let quirk;
    if got != want {
        quirk = rp::decode(content.as_bytes(), '\u{7}').unwrap_or_default();
        if content.contains("\\b") && got == quirk {
            w.fail("backspace-escape-decodes-to-bel", format!("{how}: decoded {got:?}, expected {want:?}"));
            want = &quirk;
        } else {
            w.fail("decoded", format!("{how}: decoded {got:?}, expected {want:?}"));
            return;
        }
    }
    let esc = rp::has_escape(content.as_bytes());
    w.check(s.decoded_len() == want.len(), "decoded_len", || format!("{how}: decoded_len {} for {want:?}", s.decoded_len()));
    w.check(s.is_empty() == want.is_empty(), "is_empty", || format!("{how}: is_empty {}", s.is_empty()));
    let d = s.decode_if_needed();
    w.check(d.as_str() == want, "decode_if_needed", || format!("{how}: decode_if_needed {d:?}, expected {want:?}"));
    w.check(matches!(d, AnyStr::Borrowed(_)) != esc, "decode_if_needed-borrow", || format!("{how}: escapes {esc}: {d:?}"));
    let a = s.as_str();
    w.check(a == (!esc).then_some(want), "as_str", || format!("{how}: as_str {a:?}, escapes {esc}"));
    let shown = s.to_string();
    w.check(shown == want, "display", || format!("{how}: displays {shown:?}, expected {want:?}"));
    let shown = s.decoded().to_string();
    w.check(shown == want, "display-decoded", || format!("{how}: decoded() displays {shown:?}, expected {want:?}"));
    if how == "from_json" {
        for d in [util::flagged(&s, want), util::flagged_alternate(&s, want)].into_iter().flatten() {
            w.fail("display-flags", format!("{how}: displays {d:?} under formatter flags, expected {:?}", want));
        }
        for d in [util::flagged(&s.decoded(), want), util::flagged_alternate(&s.decoded(), want)].into_iter().flatten() {
            w.fail("display-flags", format!("{how}: decoded() displays {d:?} under formatter flags, expected {:?}", want));
        }
    }
    w.check(*s == *want && *s == want, "eq-text", || format!("{how}: not equal to its text {want:?}"));
    let c = s.clone();
    w.check(c.decoded().eq(want.chars()), "clone", || format!("{how}: the clone decodes differently"));
}

/// The description of a string holds what it was made from.
fn info(esc: bool, len: usize, w: &mut W) {
    let i = JsonStringInfo::new(esc, len);
    w.traces += 1;
    w.check((i.has_escapes(), i.expected_length()) == (esc, len), "info", || format!("JsonStringInfo::new({esc}, {len}) holds {} and {}", i.has_escapes(), i.expected_length()));
    for (e, l) in [(!esc, len), (esc, len ^ 1), (esc, len)] {
        w.check((i == JsonStringInfo::new(e, l)) == (e == esc && l == len), "info", || format!("JsonStringInfo::new({esc}, {len}) == new({e}, {l}) is wrong"));
    }
    let shown = format!("{i:?}");
    w.check(shown.contains(&esc.to_string()) && shown.contains(&len.to_string()), "info", || format!("JsonStringInfo::new({esc}, {len}) shows {shown}"));
}

fn judge(lit: &[u8], w: &mut W) {
    if let Some((&0, rest)) = lit.split_first() {
        if let (Some(e), Some(Ok(n))) = (rest.first(), rest.get(1..).map(<[u8; 8]>::try_from)) {
            info(*e == 1, u64::from_le_bytes(n) as usize, w);
        }
        return;
    }
    let cfg = Cfg { trailing: false, limit: Some(128), root_any: true };
    let Ok(text) = std::str::from_utf8(lit) else { return };
    let rp::Lex::Tok { tk: rp::Tk::Str(a, b), end, .. } = rp::lex(lit, 0) else { return };
    if end != lit.len() {
        return;
    }
    util::trace_pda(lit, &cfg, w);
    let content = &text[a..b];
    let want = rp::decode(content.as_bytes(), '\u{8}').expect("valid literal");
    match JsonString::from_json(text) {
        Ok(s) => string(w, &s, content, &want, "from_json"),
        Err(e) => w.fail("rejected", format!("from_json: {e:?}")),
    }
    match Value::from_json_bytes(lit) {
        Ok(v) => match v.as_string() {
            Some(s) => string(w, s, content, &want, "value"),
            None => w.fail("not-a-string", "the value is not a string"),
        },
        Err(e) => w.fail("rejected", format!("value: {e:?}")),
    }
    if lit.len() > 4000 {
        return;
    }
    match Tokenizer::for_json(text).next() {
        Some(Ok(Token::String(s))) => string(w, &s, content, &want, "token"),
        other => w.fail("rejected", format!("token: {other:?}")),
    }
    match Document::from_json_bytes(lit).as_ref().map(|d| d.iter().next()) {
        Ok(Some(Node::String(s))) => string(w, &s, content, &want, "document"),
        other => w.fail("rejected", format!("document: {other:?}")),
    }
    let obj = format!("{{{text}:{text}}}");
    match Value::from_json(&obj) {
        Ok(v) => match v.as_object().and_then(|o| o.first()) {
            Some(e) => {
                string(w, &e.key, content, &want, "key");
                match e.value.as_string() {
                    Some(s) => string(w, s, content, &want, "member"),
                    None => w.fail("not-a-string", "the member is not a string"),
                }
            }
            None => w.fail("not-a-string", "the object has no member"),
        },
        Err(e) => w.fail("rejected", format!("member: {e:?}")),
    }
}

fn families(tier: Tier) -> Vec<Family> {
    let mut v = gen::literals(tier);
    v.push(gen::family(
        "descriptions of strings",
        vec![gen::task(|sink| {
            for k in 0..63 {
                for n in [(1u64 << k) - 1, 1 << k, (1 << k) + 1, (1 << 63) - 1 - (1 << k), (1 << 63) - (1 << k)] {
                    for e in 0..2 {
                        sink(&[&[0, e][..], &n.to_le_bytes()].concat());
                    }
                }
            }
        })],
    ));
    v
}

fn main() {
    engine::main(Check {
        id: "C07",
        level: Level::ModelChecking,
        rule: "states/transitions of the reference acceptor driven by each string literal; each trace obtains the literal through one entry point of the real code and compares decoded(), decoded_len, is_empty, decode_if_needed, as_str, Display and text equality with the reference decoder; descriptions (JsonStringInfo) are made from and compared with every length next to a power of two",
        assumptions: &[],
        families,
        judge,
        stack_mb: 0,
        show: engine::show_bytes,
    })
}
