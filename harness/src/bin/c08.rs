//! C08: encoding any text produces a JSON string that decodes back to that text.
use jjmc::engine::{self, Check, Family, Level, Task, Tier, W};
use jjmc::pda::Cfg;
use jjmc::{gen, rp, util};
use justjson::{JsonString, Value};

fn string(w: &mut W, s: &JsonString<'_>, text: &str, how: &str) {
    w.traces += 1;
    let json: String = s.as_json().take(6 * text.len() + 2).collect();
    let mut lit = Vec::with_capacity(json.len() + 2);
    lit.push(b'"');
    lit.extend(json.as_bytes());
    lit.push(b'"');
    let cfg = Cfg { trailing: false, limit: None, root_any: true };
    let legal = util::trace_pda(&lit, &cfg, w);
    w.check(legal, "illegal-json", || format!("{how}: encoded as {json:?}"));
    match rp::decode(json.as_bytes(), '\u{8}') {
        Some(d) if d == text => {}
        Some(d) if text.contains('\u{7}') && rp::decode(json.as_bytes(), '\u{7}').as_deref() == Some(text) => {
            w.fail("bel-encodes-as-backspace-escape", format!("{how}: encoded as {json:?}, which decodes to {d:?}"));
        }
        d => w.fail("encoded", format!("{how}: encoded as {json:?}, which decodes to {d:?}")),
    }
    let shown = s.as_json().to_string();
    w.check(shown == json, "as_json-display", || format!("{how}: as_json() displays {shown:?}, yields {json:?}"));
    if how == "From<&str>" && text.len() < 6 {
        for d in [util::flagged(&s.as_json(), &json), util::flagged_alternate(&s.as_json(), &json)].into_iter().flatten() {
            w.fail("display-flags", format!("{how}: as_json() displays {d:?} under formatter flags"));
        }
        if let Some(d) = util::flagged(s, text) {
            w.fail("display-flags", format!("{how}: displays {d:?} under formatter flags"));
        }
    }
    let e = s.escape_if_needed();
    w.check(e.as_str() == json, "escape_if_needed", || format!("{how}: escape_if_needed {e:?}, as_json {json:?}"));
    if let Some(j) = s.as_json_str() {
        w.check(j.as_str() == json, "as_json_str", || format!("{how}: as_json_str {j:?}, as_json {json:?}"));
    }
    let v = Value::String(s.clone());
    let out = v.to_json();
    w.check(out.as_bytes() == lit, "printed", || format!("{how}: prints {out:?}, as_json {json:?}"));
    w.check(s.len() == json.len(), "len", || format!("{how}: len {}, encoded {json:?}", s.len()));
    w.check(s.is_empty() == json.is_empty(), "is_empty", || format!("{how}: is_empty {}", s.is_empty()));
    w.check(s.decoded_len() == text.len(), "decoded_len", || format!("{how}: decoded_len {} of {text:?}", s.decoded_len()));
    // The original text.
    let d: String = s.decoded().take(text.len() + 2).collect();
    w.check(d == text, "decoded", || format!("{how}: decoded {d:?}"));
    w.check(s.as_str() == Some(text), "as_str", || format!("{how}: as_str {:?}", s.as_str()));
    let d = s.decode_if_needed();
    w.check(d.as_str() == text, "decode_if_needed", || format!("{how}: decode_if_needed {d:?}"));
    w.check(*s == *text && *s == text, "eq-text", || format!("{how}: not equal to its text"));
    let shown = s.to_string();
    w.check(shown == text, "display", || format!("{how}: displays {shown:?}"));
}

fn judge(case: &[u8], w: &mut W) {
    let Ok(text) = std::str::from_utf8(case) else { return };
    let a = JsonString::from(text);
    string(w, &a, text, "From<&str>");
    let b = JsonString::from(text.to_string());
    string(w, &b, text, "From<String>");
    let mut roomy = String::with_capacity(2 * text.len() + 40);
    roomy.push_str(text);
    string(w, &JsonString::from(roomy), text, "From<String> with spare capacity");
    w.check(a == b && b == a, "eq", || "borrowed and owned conversions are not equal".into());
    if text.len() < 200 {
        match Value::from(text.to_string()) {
            Value::String(s) => string(w, &s, text, "Value::from(String)"),
            other => w.fail("value", format!("Value::from(String) gives {other:?}")),
        }
        match Value::from(text) {
            Value::String(s) => string(w, &s, text, "Value::from(&str)"),
            other => w.fail("value", format!("Value::from(&str) gives {other:?}")),
        }
        string(w, &b.clone(), text, "clone");
    }
}

fn families(tier: Tier) -> Vec<Family> {
    let chars: Vec<Vec<u8>> = (0..0x80u32)
        .chain([0x80, 0x85, 0x9f, 0xa0, 0xe9, 0xff, 0x100, 0x7ff, 0x800, 0x2028, 0x2029, 0x25ef, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f639, 0x10ffff])
        .filter_map(char::from_u32)
        .map(|c| c.to_string().into_bytes())
        .collect();
    let special: Vec<Vec<u8>> = "\"\\/\0\u{1}\u{7}\u{8}\t\n\u{b}\u{c}\r\u{1b}\u{1f} \u{7f}\u{80}\u{ff}a0u\u{e9}\u{7ff}\u{25ef}\u{1f639}"
        .chars()
        .map(|c| c.to_string().into_bytes())
        .collect();
    let long = gen::pump_sizes(tier);
    let mut tasks = Vec::new();
    for c in special.clone() {
        for chunk in long.chunks(40) {
            let (c, chunk) = (c.clone(), chunk.to_vec());
            tasks.push(gen::task(move |sink| {
                for &n in &chunk {
                    let body: Vec<u8> = c.iter().copied().cycle().take(c.len() * n).collect();
                    sink(&body);
                    if n <= 5000 {
                        for t in ["\n", "\u{0}", "\"", "\u{e9}", "x"] {
                            sink(&[t.as_bytes(), &body].concat());
                            sink(&[&body, t.as_bytes()].concat());
                        }
                    }
                }
            }));
        }
    }
    // A special character far into plain text.
    let far: Vec<Task> = gen::far_sizes(tier)
        .into_iter()
        .map(|n| {
            let special = special.clone();
            gen::task(move |sink| {
                let fill = vec![b'x'; n];
                for c in special.iter().step_by(if n > 200_000 { 4 } else { 1 }) {
                    sink(&[&fill, &c[..]].concat());
                    sink(&[&fill, &c[..], b"yy"].concat());
                    if n < 5000 {
                        sink(&["\u{e9}".repeat(n / 2).as_bytes(), c].concat());
                        sink(&[b"\n", &fill[..], c].concat());
                    }
                }
            })
        })
        .collect();
    let giants: Vec<Task> = ["", "\u{1f}", "\u{7}y", "\u{1f639}"]
        .into_iter()
        .map(|end| gen::task(move |sink| sink(&[&vec![b'x'; (1 << 24) + 1][..], end.as_bytes()].concat())))
        .collect();
    vec![
        gen::family("giant text", giants),
        gen::family("special characters far into plain text", far),
        gen::all_scalars(false, 1),
        gen::words("all ASCII and boundary characters", &chars, 3, b"", b""),
        gen::words("special characters", &special, tier.pick(5, 6), b"", b""),
        gen::positions("text", special, tier.pick(70, 140), b"", b""),
        gen::family("repeated characters", tasks),
        gen::words("JSON-looking text", &gen::good_atoms(), tier.pick(3, 4), b"", b""),
    ]
}

fn main() {
    engine::main(Check {
        id: "C08",
        level: Level::ModelChecking,
        rule: "states/transitions of the reference acceptor driven by the encoded literal of each text; each trace converts the text through one public conversion and compares every encoding and decoding accessor with the reference encoder's contract",
        assumptions: &[],
        families,
        judge,
        stack_mb: 0,
        show: engine::show_bytes,
    })
}
