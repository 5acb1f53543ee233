//! C05: a parsed value is a faithful image of the document.
use jjmc::engine::{self, Check, Family, Level, Tier, W};
use jjmc::pda::Cfg;
use jjmc::{gen, rp, util};
use justjson::{Value, doc::Document};

const CFG: Cfg = Cfg { trailing: true, limit: None, root_any: true };

fn judge(doc: &[u8], w: &mut W) {
    let Some(tree) = rp::parse(doc, &CFG) else { return };
    w.state(util::shape_hash(&tree));
    w.edge(util::shape_hash(&tree), engine::hash_bytes(1, doc));
    let pc = util::config(&CFG);
    let mut one = |name: &str, v: Result<Value<'_>, justjson::Error>| {
        w.traces += 1;
        match v {
            Err(e) => w.fail("rejected", format!("{name}: {e:?}")),
            Ok(v) => {
                if let Err(e) = util::same_value(&v, &tree, doc) {
                    w.fail("unfaithful", format!("{name}: {e}"));
                }
            }
        }
    };
    one("Value::from_json_bytes_with_config", Value::from_json_bytes_with_config(doc, pc));
    let s = std::str::from_utf8(doc).expect("accepted text is UTF-8");
    one("Value::from_json_with_config", Value::from_json_with_config(s, pc));
    one("Value::from(Document)", Document::from_json_with_config(s, pc).map(Value::from));
    if doc.len() < 400 && rp::parse(doc, &Cfg::DEFAULT).is_some() {
        one("Value::from_json_bytes", Value::from_json_bytes(doc));
        one("Value::from_json", Value::from_json(s));
        // Insignificant whitespace has no influence.
        let stripped = rp::strip(doc);
        if stripped != doc {
            w.traces += 1;
            match (Value::from_json_bytes(&stripped), Value::from_json_bytes(doc)) {
                (Ok(a), Ok(b)) if a == b => {}
                (a, b) => w.fail("whitespace", format!("{a:?} without whitespace, {b:?} with")),
            }
        }
    }
}

pub fn families(tier: Tier) -> Vec<Family> {
    let q = tier == Tier::Quick;
    let mut v = vec![
        gen::trees(if q { 5 } else { 6 }, if q { 4 } else { 5 }, true, 4),
        gen::words("good string atoms at the root", &gen::good_atoms(), if q { 3 } else { 4 }, b"\"", b"\""),
        gen::words("good string atoms as key and value", &gen::good_atoms(), 2, b"{\"", b"\":[1]}"),
        gen::words("good string atoms as element", &gen::good_atoms(), 2, b"[\"", b"\",\"x\"]"),
        gen::positions("root string", gen::good_atoms(), tier.pick(50, 130), b"\"", b"\""),
        gen::pumps(tier),
        gen::telling(),
        gen::wide(tier),
        gen::near(tier),
        gen::mutations(!q),
        gen::token_trie(CFG, tier.pick(8, 10)),
        gen::cover(CFG, 2, true),
        gen::all_u_escapes(),
        gen::all_scalars(true, tier.pick(7, 1)),
        gen::all_pairs(!q),
    ];
    v.extend(gen::far(tier, gen::good_atoms()));
    v.push(gen::giants(false));
    v.push(gen::hex_cases());
    v.extend(gen::numbers(tier.pick(5, 7)));
    v
}

fn main() {
    engine::main(Check {
        id: "C05",
        level: Level::ModelChecking,
        rule: "states: distinct reference trees (shape and literal lengths); transitions: distinct accepted texts leading to them; each trace compares one parsed value, node by node, with the tree built by the independent reference parser",
        assumptions: &["the reference maps \\b to whatever the library does (see C07's known finding)"],
        families,
        judge,
        stack_mb: 0,
        show: engine::show_bytes,
    })
}
