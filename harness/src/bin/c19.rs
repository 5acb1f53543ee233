//! C19: a delegate error stops parsing at once and is returned unchanged.
use jjmc::deleg::{Call, Fail, Recorder};
use jjmc::engine::{self, mix, Check, Family, Level, Tier, W};
use jjmc::pda::Cfg;
use jjmc::rp::{self, Lex, Tk};
use jjmc::{gen, util};
use justjson::parser::{ParseConfig, Parser};
use justjson::ErrorKind;

fn parse<'a>(doc: &'a [u8], text: Option<&'a str>, pc: Option<ParseConfig>, fail_at: Option<usize>) -> (Result<(), justjson::Error<Fail>>, jjmc::deleg::Shared) {
    let (rec, log) = Recorder::new(doc, fail_at);
    let r = match (text, pc) {
        (Some(s), Some(pc)) => Parser::parse_json_with_config(s, pc, rec),
        (None, Some(pc)) => Parser::parse_json_bytes_with_config(doc, pc, rec),
        (Some(s), None) => Parser::parse_json(s, rec),
        (None, None) => Parser::parse_json_bytes(doc, rec),
    };
    (r.map(drop), log)
}

/// For each call, where in the document the value, key or container it is about lies, together with
/// the white space before it.
fn spans(doc: &[u8], calls: &[Call]) -> Option<Vec<(usize, usize)>> {
    let mut at = 0;
    // The next token that is no punctuation: its kind, the end of the token before it, its end.
    let mut token = || loop {
        let Lex::Tok { tk, end, .. } = rp::lex(doc, at) else { return None };
        let before = at;
        at = end;
        if !matches!(tk, Tk::Comma | Tk::Colon) {
            return Some((tk, before, end));
        }
    };
    let mut open: Vec<usize> = Vec::new();
    let mut last = (0, 0);
    let mut out = Vec::new();
    for c in calls {
        let is = |t: Tk| match c {
            Call::Null(_) => t == Tk::Null,
            Call::Bool(..) => matches!(t, Tk::True | Tk::False),
            Call::Num(..) => t == Tk::Num,
            Call::Str(..) | Call::Key(..) => matches!(t, Tk::Str(..)),
            Call::BeginArr(_) => t == Tk::Arr,
            Call::BeginObj(_) => t == Tk::Obj,
            Call::EndArr(..) => t == Tk::ArrEnd,
            Call::EndObj(..) => t == Tk::ObjEnd,
            Call::ArrVal(..) | Call::ObjVal(..) => false,
        };
        if !matches!(c, Call::ArrVal(..) | Call::ObjVal(..)) {
            let (tk, before, end) = token()?;
            if !is(tk) {
                return None;
            }
            last = (before, end);
            match c {
                Call::BeginArr(_) | Call::BeginObj(_) => open.push(before),
                Call::EndArr(..) | Call::EndObj(..) => last.0 = open.pop()?,
                _ => {}
            }
        }
        out.push(last);
    }
    Some(out)
}

fn judge(doc: &[u8], w: &mut W) {
    let text = std::str::from_utf8(doc).ok();
    let loose = Some(util::config(&Cfg { trailing: true, limit: None, root_any: true }));
    let strict = Some(util::config(&Cfg { trailing: false, limit: Some(2), root_any: false }));
    for (ci, (how, pc, text)) in [("bytes", loose, None), ("text", loose, text), ("strict bytes", strict, None), ("default bytes", None, None), ("default text", None, text)].into_iter().enumerate() {
        if how.ends_with("text") && text.is_none() {
            continue;
        }
        let (r, log) = parse(doc, text, pc, None);
        w.evals += 1;
        if let Err(e) = &r {
            w.check(!matches!(e.kind(), ErrorKind::ErrorFromDelegate(_)), "invented", || format!("{how}: {e:?} although no callback failed"));
        }
        let all = log.borrow().calls.clone();
        let n = all.len();
        // Calls that do not match the document are C18's to report.
        let about = spans(doc, &all);
        // Every call fails once; for long logs the first and last ones, and those around powers of two.
        let points: Vec<usize> = (0..n).filter(|k| n <= 120 || (gen::notable(*k, n, 8) && (doc.len() < 5000 || ci == 0 || k % 2 == 0))).collect();
        for k in points {
            let (r, log) = parse(doc, text, pc, Some(k));
            let l = log.borrow();
            w.evals += 1;
            w.nontrivial.insert(mix(engine::hash_bytes(ci as u64, doc), k as u64));
            match &r {
                Ok(()) => w.fail("swallowed", format!("{how}: call {k} ({:?}) failed, parsing succeeded", all[k])),
                Err(e) => {
                    let same = matches!(e.kind(), ErrorKind::ErrorFromDelegate(Fail(x)) if *x == k);
                    w.check(same, "changed", || format!("{how}: call {k} ({:?}) failed, parsing reported {e:?}", all[k]));
                    if same && ci == 0 && doc.len() < 40 {
                        let (shown, fail) = (e.to_string(), Fail(k).to_string());
                        w.check(e.kind().to_string().contains(&fail) && shown.replacen(&fail, "", 1).contains(&e.offset().to_string()) && shown.contains(&fail), "display", || format!("{how}: call {k} ({:?}) failed, the error displays {shown:?}", all[k]));
                    }
                    if let Some((lo, hi)) = about.as_ref().map(|a| a[k]) {
                        w.check((lo..=hi).contains(&e.offset()), "offset", || format!("{how}: call {k} ({:?}) is about {lo}..{hi}, the error is at {}", all[k], e.offset()));
                    }
                    w.check(e.offset() <= doc.len(), "offset", || format!("{how}: call {k} ({:?}): offset {} of {}", all[k], e.offset(), doc.len()));
                }
            }
            w.check(l.after_failure == 0, "continued", || {
                format!("{how}: call {k} ({:?}) failed, then {:?}", all[k], l.calls.get(k + 1))
            });
            w.check(l.calls.len() > k && l.calls[..=k] == all[..=k], "different-calls", || {
                format!("{how}: the calls before call {k} differ from those of an undisturbed parse")
            });
            w.check(l.live == 0, "leaked-values", || format!("{how}: call {k}: {} handles never dropped", l.live));
        }
    }
}

fn families(tier: Tier) -> Vec<Family> {
    let loose = Cfg { trailing: true, limit: None, root_any: true };
    let mut v = vec![
        gen::trees(tier.pick(5, 6), 4, true, 2),
        gen::token_trie(loose, tier.pick(7, 9)),
        gen::cover(loose, tier.pick(2, 3), false),
        gen::wide(tier),
        gen::pumps(tier),
        gen::telling(),
        gen::mutations(false),
    ];
    v.extend(gen::far(tier, gen::all_atoms()).into_iter().map(|f| gen::shorter(f, 1200)));
    v
}

fn main() {
    engine::main(Check {
        id: "C19",
        level: Level::FaultEnumeration,
        rule: "one evaluation parses one input with a delegate whose k-th callback fails with an error carrying k, for every k below the number of callbacks of the undisturbed parse (when there are more than 120: the first and last 8 and those next to powers of two from either end); distinct (input, entry point, k) combinations are counted",
        assumptions: &[],
        families,
        judge,
        stack_mb: 0,
        show: engine::show_bytes,
    })
}
