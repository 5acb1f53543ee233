//! Cross-check of the two reference models against each other (no library involved): the byte
//! acceptor and the token walker agree on acceptance for every text of the standard universe, in
//! several option settings.
use jjmc::engine::{self, Check, Level, W};
use jjmc::pda::{self, Cfg, Pda, Run};
use jjmc::{gen, rp, util};

fn judge(doc: &[u8], w: &mut W) {
    for cfg in [
        Cfg::DEFAULT,
        Cfg { trailing: true, limit: Some(2), root_any: true },
        Cfg { trailing: true, limit: None, root_any: false },
        Cfg { trailing: false, limit: Some(0), root_any: false },
    ] {
        w.traces += 1;
        let mut p = Pda::new();
        let run = pda::run(doc, &cfg, &mut p);
        let a = run == Run::Accept;
        let r = rp::parse(doc, &cfg);
        if a != r.is_some() {
            w.fail("models-disagree", format!("{}: acceptor {a}, walker {}", util::show_cfg(&cfg), r.is_some()));
        }
        if cfg == Cfg::DEFAULT {
            util::trace_pda(doc, &cfg, w);
            if let Some(t) = &r {
                let s = rp::strip(doc);
                if rp::parse(&s, &cfg).map(|t| t.nodes()) != Some(t.nodes()) {
                    w.fail("strip", "stripped text has another shape");
                }
                let mut n = Vec::new();
                rp::preorder(t, &mut n);
                if n.len() != t.nodes() {
                    w.fail("nodes", "node count");
                }
                if t.kind() != util::first_code(doc) {
                    w.fail("kind", "root kind");
                }
            }
        }
        // The fault position of the walker lies at or before the acceptor's death byte's token.
        if let (Run::Dead { at, .. }, Some(f)) = (&run, rp::walk(doc, &cfg).fault) {
            if !(f.prev_end <= *at && *at < f.end.max(f.start + 1)) && cfg.root_any {
                w.fail("fault-region", format!("death at {at}, walker fault {f:?}"));
            }
        }
    }
}

fn main() {
    engine::main(Check {
        id: "SELFTEST",
        level: Level::ModelChecking,
        rule: "reference models compared with each other",
        assumptions: &[],
        families: |t| gen::universe(t, Cfg::DEFAULT),
        judge,
        stack_mb: 0,
        show: engine::show_bytes,
    })
}
