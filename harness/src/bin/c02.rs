//! C02: all entry points agree on verdict, error kind, offset and root kind.
use jjmc::engine::{self, Check, Family, Level, Tier, W};
use jjmc::pda::Cfg;
use jjmc::{gen, util};
use justjson::doc::{Document, Node};
use justjson::parser::{ParseConfig, Parser};
use justjson::{Error, Value};

type R = Result<u8, Error>;

fn root(d: Document<'_>) -> u8 {
    match d.iter().next() {
        Some(Node::Null) => b'n',
        Some(Node::Boolean(_)) => b'b',
        Some(Node::Number(_)) => b'#',
        Some(Node::String(_)) => b's',
        Some(Node::Object { .. }) => b'o',
        Some(Node::Array { .. }) => b'a',
        None => b'?',
    }
}

const CFGS: &[Cfg] = &[
    Cfg { trailing: true, limit: Some(128), root_any: true },
    Cfg { trailing: false, limit: Some(128), root_any: false },
    Cfg { trailing: false, limit: None, root_any: true },
    Cfg { trailing: false, limit: Some(1), root_any: true },
    Cfg { trailing: true, limit: Some(2), root_any: false },
    Cfg { trailing: true, limit: Some(0), root_any: true },
];

fn judge(doc: &[u8], w: &mut W) {
    util::trace_pda(doc, &Cfg::DEFAULT, w);
    let text = std::str::from_utf8(doc).ok();
    let same = |w: &mut W, base: &R, name: &str, got: R, cfg: &str| {
        w.traces += 1;
        if &got != base {
            let key = match (base, &got) {
                (Ok(_), Ok(_)) => "root-kind",
                (Err(a), Err(b)) if a.kind() == b.kind() => "offset",
                (Err(_), Err(_)) => "error-kind",
                _ => "verdict",
            };
            w.fail(key, format!("{name} gives {got:?}, validate_json_bytes gives {base:?} ({cfg})"));
        }
    };
    {
        let base: R = Parser::validate_json_bytes(doc).map(util::kind_code);
        w.traces += 1;
        let c = "default configuration";
        same(w, &base, "Value::from_json_bytes", Value::from_json_bytes(doc).map(|v| util::value_code(&v)), c);
        same(w, &base, "Document::from_json_bytes", Document::from_json_bytes(doc).map(root), c);
        same(w, &base, "parse_json_bytes(())", Parser::parse_json_bytes(doc, ()).map(util::kind_code), c);
        if let Some(s) = text {
            same(w, &base, "validate_json", Parser::validate_json(s).map(util::kind_code), c);
            same(w, &base, "Value::from_json", Value::from_json(s).map(|v| util::value_code(&v)), c);
            same(w, &base, "Document::from_json", Document::from_json(s).map(root), c);
            same(w, &base, "parse_json(())", Parser::parse_json(s, ()).map(util::kind_code), c);
        }
        for (i, p) in [ParseConfig::default(), ParseConfig::new(), util::config(&Cfg::DEFAULT)].into_iter().enumerate() {
            let c = ["ParseConfig::default()", "ParseConfig::new()", "built default"][i];
            all(w, &base, doc, text, p, c, &same);
        }
    }
    for cfg in CFGS {
        let p = util::config(cfg);
        let base: R = Parser::validate_json_bytes_with_config(doc, p).map(util::kind_code);
        w.traces += 1;
        all(w, &base, doc, text, p, &util::show_cfg(cfg), &same);
    }
}

fn all(
    w: &mut W,
    base: &R,
    doc: &[u8],
    text: Option<&str>,
    p: ParseConfig,
    c: &str,
    same: &dyn Fn(&mut W, &R, &str, R, &str),
) {
    same(w, base, "validate_json_bytes_with_config", Parser::validate_json_bytes_with_config(doc, p).map(util::kind_code), c);
    same(w, base, "Value::from_json_bytes_with_config", Value::from_json_bytes_with_config(doc, p).map(|v| util::value_code(&v)), c);
    same(w, base, "Document::from_json_bytes_with_config", Document::from_json_bytes_with_config(doc, p).map(root), c);
    if let Some(s) = text {
        same(w, base, "validate_json_with_config", Parser::validate_json_with_config(s, p).map(util::kind_code), c);
        same(w, base, "Value::from_json_with_config", Value::from_json_with_config(s, p).map(|v| util::value_code(&v)), c);
        same(w, base, "Document::from_json_with_config", Document::from_json_with_config(s, p).map(root), c);
        same(w, base, "parse_json_with_config(())", Parser::parse_json_with_config(s, p, ()).map(util::kind_code), c);
    }
}

fn families(tier: Tier) -> Vec<Family> {
    let mut v = gen::universe(tier, Cfg { trailing: true, limit: Some(128), root_any: true });
    v.push(gen::scalar_gaps(tier.pick(7, 1), tier.pick(31, 1)));
    v
}

fn main() {
    engine::main(Check {
        id: "C02",
        level: Level::ModelChecking,
        rule: "states and transitions of the reference acceptor driven by the texts (coverage measure); each trace runs one text through one entry point in one configuration and compares its complete result with validate_json_bytes' result",
        assumptions: &["differential: correctness of the common result is C01/C03/C25"],
        families,
        judge,
        stack_mb: 0,
        show: engine::show_bytes,
    })
}
