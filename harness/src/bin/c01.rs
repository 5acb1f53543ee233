//! C01: acceptance is exactly RFC 8259.
use jjmc::engine::{self, Check, Family, Level, Tier, W};
use jjmc::pda::{Cfg, Pda};
use jjmc::{gen, util};
use justjson::doc::Document;
use justjson::parser::Parser;
use justjson::Value;

fn judge(doc: &[u8], w: &mut W) {
    let cfg = Cfg::DEFAULT;
    let mut p = Pda::new();
    let mut ok = true;
    let mut c = p.code();
    w.state(c);
    for b in doc {
        w.edge(c, u64::from(*b));
        if p.step(*b, &cfg).is_err() {
            ok = false;
            break;
        }
        c = p.code();
        w.state(c);
    }
    ok = ok && p.accepting();
    let kind = util::first_code(doc);
    let mut check = |name: &str, got: Option<u8>| {
        w.traces += 1;
        if got.is_some() != ok {
            w.fail(
                if ok { "rejects-json" } else { "accepts-non-json" },
                format!("{name} {} a text that {} JSON", if ok { "rejects" } else { "accepts" }, if ok { "is" } else { "is not" }),
            );
        } else if let Some(k) = got {
            if k != kind {
                w.fail("root-kind", format!("{name} reports root kind {:?}, expected {:?}", k as char, kind as char));
            }
        }
    };
    check("validate_json_bytes", Parser::validate_json_bytes(doc).ok().map(util::kind_code));
    check("Value::from_json_bytes", Value::from_json_bytes(doc).ok().map(|v| util::value_code(&v)));
    check("Document::from_json_bytes", Document::from_json_bytes(doc).ok().map(|_| kind));
    if let Ok(s) = std::str::from_utf8(doc) {
        check("validate_json", Parser::validate_json(s).ok().map(util::kind_code));
        check("Value::from_json", Value::from_json(s).ok().map(|v| util::value_code(&v)));
        check("Document::from_json", Document::from_json(s).ok().map(|_| kind));
    }
}

fn families(tier: Tier) -> Vec<Family> {
    let mut v = gen::universe(tier, Cfg::DEFAULT);
    v.push(gen::scalar_gaps(1, tier.pick(31, 1)));
    v.push(gen::all_pairs(tier == Tier::Thorough));
    v.push(gen::all_scalars(true, tier.pick(7, 1)));
    v
}

fn main() {
    engine::main(Check {
        id: "C01",
        level: Level::ModelChecking,
        rule: "states: distinct (phase, container stack) configurations of the RFC 8259 acceptor reached; transitions: distinct (configuration, byte); each trace runs one text through one entry point of the library and compares verdict and root kind with the acceptor",
        assumptions: &["the reference acceptor (pda.rs) is RFC 8259 + RFC 3629; it is cross-checked against the independent token-level parser (rp.rs) by the self-test"],
        families,
        judge,
        stack_mb: 0,
        show: engine::show_bytes,
    })
}
