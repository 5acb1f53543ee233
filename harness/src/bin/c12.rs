//! C12: compact output is the document minus its insignificant bytes.
use jjmc::engine::{self, mix, Check, Family, Level, Tier, W};
use jjmc::pda::Cfg;
use jjmc::{gen, rp, util};
use justjson::Value;

struct Plain(String);
impl std::fmt::Write for Plain {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.push_str(s);
        Ok(())
    }
}

fn judge(doc: &[u8], w: &mut W) {
    let cfg = Cfg { trailing: true, limit: None, root_any: true };
    let Some(tree) = rp::parse(doc, &cfg) else { return };
    let shape = util::shape_hash(&tree);
    w.state(shape);
    w.edge(mix(shape, doc.len() as u64), 0);
    let want = rp::strip(doc);
    let want = std::str::from_utf8(&want).expect("utf-8");
    let pc = util::config(&cfg);
    let v = match Value::from_json_bytes_with_config(doc, pc) {
        Ok(v) => v,
        // C01's to report; nothing to print.
        Err(_) => return,
    };
    w.traces += 1;
    let show = |s: &str| engine::show_bytes(s.as_bytes());
    let out = v.to_json();
    w.check(out == want, "to_json", || format!("prints {}, expected {}", show(&out), show(want)));
    let mut p = Plain(String::new());
    let r = v.write_json_to(&mut p);
    w.check(r.is_ok() && p.0 == want, "write_json_to", || format!("writes {}, expected {}", show(&p.0), show(want)));
    let d = format!("{v}");
    w.check(d == want, "display", || format!("displays {}, expected {}", show(&d), show(want)));
    if let Some(d) = util::flagged(&v, want) {
        w.fail("display-flags", format!("displays {} under formatter flags, expected {}", show(&d), show(want)));
    }
    let inside = format!("<{v}|{v}>");
    w.check(inside == format!("<{want}|{want}>"), "display-embedded", || format!("displays {} inside a format", show(&inside)));
    match Value::from_json_with_config(&out, pc) {
        Ok(u) => {
            w.check(u == v && v == u, "reparse", || format!("{} parses to a different value", show(&out)));
            let again = u.to_json();
            w.check(again == out, "idempotent", || format!("prints {} then {}", show(&out), show(&again)));
        }
        Err(e) => w.fail("reparse", format!("{} does not parse: {e:?}", show(&out))),
    }
    // Every subtree prints as its part of the text.
    fn walk(w: &mut W, doc: &[u8], v: &Value<'_>, t: &rp::RVal, depth: usize) {
        let part = rp::pretty(doc, t, "", "");
        let got = v.to_json();
        let want = String::from_utf8_lossy(&part).replace("\": ", "\":");
        // Only used where no string content can contain the replaced text.
        if !part.contains(&b'\\') {
            w.check(got == want, "subtree", || format!("a subtree prints {got}, expected {want}"));
        }
        if depth == 0 {
            return;
        }
        match (v, t) {
            (Value::Array(a), rp::RVal::Arr(b)) => a.iter().zip(b).for_each(|(v, t)| walk(w, doc, v, t, depth - 1)),
            (Value::Object(o), rp::RVal::Obj(b)) => {
                o.iter().zip(b).for_each(|(e, (_, t))| walk(w, doc, &e.value, t, depth - 1))
            }
            _ => {}
        }
    }
    if doc.len() < 200 {
        walk(w, doc, &v, &tree, 2);
    }
}

fn families(tier: Tier) -> Vec<Family> {
    gen::documents(tier)
}

fn main() {
    engine::main(Check {
        id: "C12",
        level: Level::ModelChecking,
        rule: "a state is a tree shape (kinds and literal lengths), a transition a shape with a source length (a way to write it); each trace parses one accepted document with the real code, prints it in every compact form, compares with the source text stripped of insignificant bytes, and parses it again",
        assumptions: &["documents that the library wrongly rejects are C01's to report"],
        families,
        judge,
        stack_mb: 0,
        show: engine::show_bytes,
    })
}
