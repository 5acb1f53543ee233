//! C22: parsing a lone string or number accepts exactly JSON texts of that type.
use jjmc::engine::{self, mix, Check, Family, Level, Tier, W};
use jjmc::pda::Cfg;
use jjmc::rp::{self, RVal};
use jjmc::{gen, util};
use justjson::{Error, ErrorKind, JsonNumber, JsonString, Value};

fn rejected(w: &mut W, e: &Error, expected: Option<ErrorKind>, len: usize, how: &str) {
    if let Some(k) = expected {
        w.check(*e.kind() == k, "kind", || format!("{how}: {e:?}, expected {k:?}"));
    }
    w.check(e.offset() <= len, "offset", || format!("{how}: offset {} of {len}", e.offset()));
    w.check(!e.to_string().is_empty(), "display", || format!("{how}: empty message"));
}

fn judge(case: &[u8], w: &mut W) {
    let Ok(text) = std::str::from_utf8(case) else { return };
    let cfg = Cfg { trailing: false, limit: Some(128), root_any: true };
    util::trace_pda(case, &cfg, w);
    let tree = rp::parse(case, &cfg);
    let st = tree.as_ref().map_or(0, RVal::kind);
    w.state(mix(77, u64::from(st)));
    w.note(match st { 0 => "rejected texts", b's' => "strings", b'#' => "numbers", _ => "other types" }, 1);
    w.traces += 2;
    let value = Value::from_json(text);
    match (JsonString::from_json(text), &tree) {
        (Ok(s), Some(RVal::Str(r))) => {
            if let Err(m) = util::same_string(&s, case, *r) {
                w.fail("string", m);
            }
            let lit = s.as_json_str().map_or("", |l| l.as_str());
            w.check(lit.is_empty() || lit.as_ptr() as usize == text.as_ptr() as usize + r.0, "borrow", || "not borrowed from the input".into());
            match value.as_ref().map(Value::as_string) {
                Ok(Some(v)) => {
                    w.check(*v == s && s == *v, "value", || format!("value string {v:?}, lone string {s:?}"));
                    w.check(v.as_json_str() == s.as_json_str() && v.decoded_len() == s.decoded_len() && v.as_str() == s.as_str() && v.as_json().eq(s.as_json()), "value", || format!("value string {v:?}, lone string {s:?}"));
                }
                other => w.fail("value", format!("the value is {other:?}")),
            }
        }
        (Err(e), None) => rejected(w, &e, None, case.len(), "string"),
        (Err(e), Some(t)) if t.kind() != b's' => rejected(w, &e, Some(ErrorKind::ExpectedString), case.len(), "string"),
        (got, t) => w.fail("verdict-string", format!("JsonString::from_json {got:?}, the text is {t:?}")),
    }
    match (JsonNumber::from_json(text), &tree) {
        (Ok(n), Some(RVal::Num(r))) => {
            if let Err(m) = util::same_number(&n, case, *r) {
                w.fail("number", m);
            }
            w.check(n.source().as_ptr() as usize == text.as_ptr() as usize + r.0, "borrow", || "not borrowed from the input".into());
            w.check(value.as_ref().ok().and_then(Value::as_number) == Some(&n), "value", || format!("value {value:?}, lone number {n:?}"));
        }
        (Err(e), None) => rejected(w, &e, None, case.len(), "number"),
        (Err(e), Some(t)) if t.kind() != b'#' => rejected(w, &e, Some(ErrorKind::ExpectedNumber), case.len(), "number"),
        (got, t) => w.fail("verdict-number", format!("JsonNumber::from_json {got:?}, the text is {t:?}")),
    }
}

fn families(tier: Tier) -> Vec<Family> {
    let mut v = gen::universe(tier, Cfg { trailing: true, limit: Some(128), root_any: true });
    v.push(gen::words("well-formed atoms", &gen::good_atoms(), tier.pick(3, 4), b"\"", b"\""));
    v.push(gen::words("string pieces and space", &gen::singles(b"\"\\nu0 a1-\n[]"), tier.pick(6, 7), b"", b""));
    v.push(gen::trees(tier.pick(5, 6), 7, true, 3));
    v
}

fn main() {
    engine::main(Check {
        id: "C22",
        level: Level::ModelChecking,
        rule: "states/transitions of the reference acceptor driven by each text; each trace parses the text with JsonString::from_json or JsonNumber::from_json and compares verdict, content, borrowing and error kind with the reference parse and with Value::from_json",
        assumptions: &["Only UTF-8 texts: both functions take &str"],
        families,
        judge,
        stack_mb: 0,
        show: engine::show_bytes,
    })
}
