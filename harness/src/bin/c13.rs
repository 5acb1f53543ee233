//! C13: pretty output follows one fixed layout and preserves the value.
use jjmc::engine::{self, mix, Check, Family, Level, Tier, W};
use jjmc::pda::Cfg;
use jjmc::{gen, rp, util};
use justjson::Value;

const STYLES: &[(&str, &str)] = &[
    ("  ", "\n"), ("\t", "\r\n"), ("", ""), ("", "\n"), (" ", ""), ("    ", "\n\n"), (" \t", "\r"), (" ", " "),
    ("--", "<eol>"), ("\u{e9}", "\u{2028}"),
];

fn judge(doc: &[u8], w: &mut W) {
    let cfg = Cfg { trailing: true, limit: None, root_any: true };
    let Some(tree) = rp::parse(doc, &cfg) else { return };
    let shape = util::shape_hash(&tree);
    w.state(shape);
    let pc = util::config(&cfg);
    let Ok(v) = Value::from_json_bytes_with_config(doc, pc) else { return };
    let show = |s: &str| engine::show_bytes(s.as_bytes());
    let deep = doc.iter().filter(|b| matches!(b, b'[' | b'{')).count() > 128;
    let styles = if doc.len() > 3000 || deep { &STYLES[..2] } else { STYLES };
    for (i, (indent, eol)) in styles.iter().enumerate() {
        w.traces += 1;
        w.edge(mix(shape, i as u64), 0);
        let want = rp::pretty(doc, &tree, indent, eol);
        let want = std::str::from_utf8(&want).expect("utf-8");
        let out = v.to_json_pretty_custom(indent, eol);
        w.check(out == want, "custom", || format!("({indent:?}, {eol:?}) prints {}, expected {}", show(&out), show(want)));
        let mut p = String::new();
        let r = v.pretty_write_json_to_custom(indent, eol, &mut p);
        w.check(r.is_ok() && p == want, "custom-writer", || format!("({indent:?}, {eol:?}) writes {}, expected {}", show(&p), show(want)));
        if i == 0 {
            let out = v.to_json_pretty();
            w.check(out == want, "default", || format!("prints {}, expected {}", show(&out), show(want)));
            let mut p = String::new();
            let r = v.pretty_write_json_to(&mut p);
            w.check(r.is_ok() && p == want, "default-writer", || format!("writes {}, expected {}", show(&p), show(want)));
            let d = format!("{v:#}");
            w.check(d == want, "display", || format!("displays {}, expected {}", show(&d), show(want)));
            if let Some(d) = util::flagged_alternate(&v, want) {
                w.fail("display-flags", format!("displays {} under formatter flags, expected {}", show(&d), show(want)));
            }
        }
        if indent.bytes().chain(eol.bytes()).all(jjmc::pda::is_ws) && i < 8 {
            match Value::from_json_with_config(&out, pc) {
                Ok(u) => w.check(u == v && v == u, "reparse", || format!("{} parses to a different value", show(&out))),
                Err(e) => w.fail("reparse", format!("{} does not parse: {e:?}", show(&out))),
            }
        }
    }
}

fn families(tier: Tier) -> Vec<Family> {
    gen::documents(tier)
}

fn main() {
    engine::main(Check {
        id: "C13",
        level: Level::ModelChecking,
        rule: "a state is a tree shape (kinds and literal lengths), a transition a shape printed in one of ten indentation and line-ending styles; each trace prints the real value in every pretty form, compares with the reference layout byte for byte, and parses it again",
        assumptions: &["documents that the library wrongly rejects are C01's to report"],
        families,
        judge,
        stack_mb: 0,
        show: engine::show_bytes,
    })
}
