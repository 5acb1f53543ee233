//! C18: delegates receive the document's events once, in order, properly nested.
use jjmc::deleg::{self, Call, Recorder};
use jjmc::engine::{self, mix, Check, Family, Level, Tier, W};
use jjmc::pda::Cfg;
use jjmc::{gen, util};
use justjson::parser::{ParseConfig, Parser};

fn call_code(c: &Call) -> u64 {
    match c {
        Call::Null(_) => 0,
        Call::Bool(b, _) => 1 + u64::from(*b),
        Call::Num(..) => 3,
        Call::Str(..) => 4,
        Call::BeginArr(_) => 5,
        Call::ArrVal(..) => 6,
        Call::EndArr(..) => 7,
        Call::BeginObj(_) => 8,
        Call::Key(..) => 9,
        Call::ObjVal(..) => 10,
        Call::EndObj(..) => 11,
    }
}

fn run(w: &mut W, doc: &[u8], how: &str, cfg: &Cfg, pc: Option<ParseConfig>, text: Option<&str>, want: &[Call], complete: bool) {
    w.traces += 1;
    let (rec, log) = Recorder::new(doc, None);
    let r = match (text, pc) {
        (Some(s), Some(pc)) => Parser::parse_json_with_config(s, pc, rec),
        (None, Some(pc)) => Parser::parse_json_bytes_with_config(doc, pc, rec),
        (Some(s), None) => Parser::parse_json(s, rec),
        (None, None) => Parser::parse_json_bytes(doc, rec),
    };
    let calls = log.borrow().calls.clone();
    if let Some(p) = log.borrow().problems.first() {
        w.fail("query", format!("{how}: {p}"));
    }
    let first = calls.iter().zip(want).position(|(a, b)| a != b);
    if let Some(i) = first {
        w.fail("event", format!("{how}: call {i} is {:?}, expected {:?}", calls[i], want[i]));
        return;
    }
    if calls.len() > want.len() {
        w.fail("extra-event", format!("{how}: {:?} after the last expected call", calls[want.len()]));
        return;
    }
    match r {
        Ok(v) => {
            w.check(calls.len() == want.len() && complete, "missing-event", || format!("{how}: {} calls, expected {}", calls.len(), want.len()));
            w.check(v.id + 1 == want.len(), "root", || format!("{how}: the result is value {}, expected {}", v.id, want.len() - 1));
            let live = log.borrow().live;
            w.check(live == 1, "live-values", || format!("{how}: {live} handles alive besides the result"));
            drop(v);
        }
        Err(e) => {
            // Root kinds and faults are judged elsewhere; here the delivered events were a prefix.
            let root_only = complete && !cfg.root_any && !matches!(want.last(), Some(Call::EndArr(..) | Call::EndObj(..)));
            w.check(!complete || root_only, "rejected", || format!("{how}: {e:?}"));
        }
    }
    let live = log.borrow().live;
    w.check(live == 0, "leaked-values", || format!("{how}: {live} handles never returned or dropped"));
}

fn judge(doc: &[u8], w: &mut W) {
    let text = std::str::from_utf8(doc).ok();
    for cfg in [Cfg { trailing: true, limit: None, root_any: true }, Cfg { trailing: false, limit: Some(2), root_any: false }] {
        let (want, complete) = deleg::reference(doc, &cfg);
        let mut h = 0;
        for c in &want {
            let n = mix(h, call_code(c));
            w.state(h);
            w.edge(h, call_code(c));
            h = n;
        }
        w.state(h);
        let pc = Some(util::config(&cfg));
        run(w, doc, "bytes", &cfg, pc, None, &want, complete);
        if text.is_some() {
            run(w, doc, "text", &cfg, pc, text, &want, complete);
        }
    }
    let cfg = Cfg { trailing: false, limit: Some(128), root_any: true };
    let (want, complete) = deleg::reference(doc, &cfg);
    if complete {
        run(w, doc, "default bytes", &cfg, None, None, &want, complete);
        run(w, doc, "default text", &cfg, None, text, &want, complete);
    }
}

fn families(tier: Tier) -> Vec<Family> {
    let mut v = gen::documents(tier);
    v.push(gen::class_bytes(tier.pick(3, 4)));
    v
}

fn main() {
    engine::main(Check {
        id: "C18",
        level: Level::ModelChecking,
        rule: "a state is a history of delegate events, a transition one more event; each trace parses one input with a recording delegate whose handles carry identities and cannot be copied, and compares every call (container, key, value identities and literal ranges) with the events of the reference walker; for rejected inputs the calls must be a prefix",
        assumptions: &[],
        families,
        judge,
        stack_mb: 0,
        show: engine::show_bytes,
    })
}
