//! C25: errors locate the first problem and name what is wrong there.
use jjmc::engine::{self, mix, Check, Family, Level, Tier, W};
use jjmc::pda::{Cfg, Frame};
use jjmc::rp::{self, Ev, Exp, Fault, Lex, Tk, What};
use jjmc::{gen, util};
use justjson::doc::Document;
use justjson::parser::{Parser, Tokenizer};
use justjson::{ErrorKind as E, JsonNumber, JsonString, Value};

/// Whether `b` is the byte found at `at` (or the first one after the whitespace at `at`).
fn found_there(src: &[u8], at: usize, b: u8) -> bool {
    src.get(at) == Some(&b) || src.get(rp::skip_ws(src, at)) == Some(&b)
}

/// Kinds that truthfully describe the lexical fault `what` when reported at `at`.
fn lexical(src: &[u8], what: What, end: usize, top: Option<Frame>, kind: &E, at: usize) -> bool {
    let eof_kind = match top {
        None => matches!(kind, E::UnexpectedEof),
        Some(Frame::Arr) => matches!(kind, E::UnclosedArray),
        Some(Frame::Obj) => matches!(kind, E::UnclosedObject),
    };
    let cut = at == src.len() && end == src.len();
    match what {
        What::LitCut => eof_kind && cut,
        What::StrCut => (eof_kind || *kind == E::UnclosedString) && cut,
        What::BadByte => matches!(kind, E::Unexpected(b) if found_there(src, at, *b)),
        What::Lit(p) => matches!(kind, E::Unexpected(b) if *b == src[p] && found_there(src, at, *b)),
        What::Ctl(p) => matches!(kind, E::Unexpected(b) if *b == src[p] && src[at] == *b),
        What::Digit(p) => *kind == E::ExpectedDigit || (p == src.len() && eof_kind && cut),
        What::Frac(p) => *kind == E::ExpectedDecimalDigit || (p == src.len() && eof_kind && cut),
        What::Exp(p) => *kind == E::ExpectedExponent || (p == src.len() && eof_kind && cut),
        What::Esc(_) => *kind == E::InvalidEscape,
        What::Hex(_) => *kind == E::InvalidHexadecimal,
        // A lone surrogate is known to be one only when the escape after it has been read, which
        // may be broken itself.
        What::Text => {
            *kind == E::Utf8
                || (*kind == E::InvalidHexadecimal && surrogate_before(src, at) && src.get(at).is_some_and(|b| !b.is_ascii_hexdigit()))
                || (eof_kind && cut && surrogate_before(src, at))
        }
        _ => false,
    }
}

/// An escape for a high surrogate, and `\u`, precede `at` by at most three digits.
fn surrogate_before(src: &[u8], at: usize) -> bool {
    (0..=3).any(|k| {
        at >= 8 + k
            && &src[at - 2 - k..at - k] == b"\\u"
            && &src[at - 8 - k..at - 6 - k] == b"\\u"
            && src[at - 6 - k].eq_ignore_ascii_case(&b'd')
    }) || (at >= 6 && src[at - 6..at - 4].eq(b"\\u"))
}

/// Kinds that truthfully say that what begins with this byte is not what the grammar wants.
fn grammatical(src: &[u8], f: &Fault, kind: &E, at: usize) -> bool {
    let first = src.get(f.start).copied();
    match f.exp {
        Exp::Colon => *kind == E::ExpectedColon && first != Some(b':'),
        Exp::After => match f.top {
            Some(Frame::Arr) => *kind == E::ExpectedCommaOrEndOfArray && !matches!(first, None | Some(b',' | b']')),
            Some(Frame::Obj) => *kind == E::ExpectedCommaOrEndOfObject && !matches!(first, None | Some(b',' | b'}')),
            None => false,
        },
        Exp::KeyFirst | Exp::KeyNext => match kind {
            E::IllegalTrailingComma => f.exp == Exp::KeyNext && first == Some(b'}'),
            E::ObjectKeysMustBeStrings => matches!(first, Some(b'{' | b'[' | b't' | b'f' | b'n' | b'-' | b'0'..=b'9')),
            E::ExpectedObjectKey => !matches!(first, None | Some(b'"')),
            _ => false,
        },
        Exp::Root | Exp::ArrFirst | Exp::ArrNext | Exp::ObjVal => match kind {
            E::IllegalTrailingComma => f.exp == Exp::ArrNext && first == Some(b']'),
            E::Unexpected(b) => first == Some(*b) && matches!(f.what, What::Grammar(_)) && found_there(src, at, *b),
            // Only when the byte cannot begin a value.
            E::ExpectedValue => !matches!(first, None | Some(b'{' | b'[' | b'"' | b't' | b'f' | b'n' | b'-' | b'0'..=b'9')),
            _ => false,
        },
    }
}

/// Why the report is wrong, if it is.
fn judge_report(src: &[u8], f: &Fault, kind: &E, at: usize) -> Option<String> {
    // The text ends where the fault is: the end itself belongs to the fault.
    let cut = match f.what {
        What::Eof | What::LitCut | What::StrCut => true,
        What::Digit(p) | What::Frac(p) | What::Exp(p) => p == src.len(),
        What::Text | What::Trailing => f.end == src.len(),
        _ => false,
    };
    let inside = at >= f.prev_end && (at < f.end || (cut && at == src.len()));
    if !inside {
        return Some(format!("offset outside the faulty token {}..{} and the space from {}", f.start, f.end, f.prev_end));
    }
    let eof = matches!(kind, E::UnexpectedEof | E::UnclosedArray | E::UnclosedObject | E::UnclosedString);
    if eof && at != src.len() {
        return Some("end-of-input kind before the end".into());
    }
    let ok = match f.what {
        What::Eof => {
            at == src.len()
                && (match f.top {
                    None => *kind == E::UnexpectedEof,
                    Some(Frame::Arr) => *kind == E::UnclosedArray,
                    Some(Frame::Obj) => *kind == E::UnclosedObject,
                } || (f.exp == Exp::Colon && *kind == E::ExpectedColon))
        }
        What::Depth => *kind == E::RecursionLimitReached,
        What::Trailing => *kind == E::TrailingNonWhitespace && at < src.len(),
        What::Grammar(_) => grammatical(src, f, kind, at),
        what => {
            // In a place where the token could not stand anyway, either truth will do.
            (f.exp != Exp::Colon && lexical(src, what, f.end, f.top, kind, at)) || grammatical(src, f, kind, at)
        }
    };
    (!ok).then(|| format!("the fault is {:?} where {:?} is due in {:?}", f.what, f.exp, f.top))
}

const CONFIGS: [Cfg; 6] = [
    Cfg { trailing: false, limit: Some(128), root_any: true },
    Cfg { trailing: true, limit: Some(128), root_any: true },
    Cfg { trailing: false, limit: Some(1), root_any: true },
    Cfg { trailing: false, limit: Some(2), root_any: false },
    Cfg { trailing: true, limit: Some(0), root_any: false },
    Cfg { trailing: false, limit: None, root_any: true },
];

fn report(w: &mut W, src: &[u8], cfg: &Cfg, walk: &rp::Walk, got: Option<(E, usize)>, how: &str) {
    w.traces += 1;
    let scalar = matches!(walk.events.first(), Some(Ev::Null | Ev::Bool(_) | Ev::Num(..) | Ev::Str(..)));
    let root_fault = !cfg.root_any && scalar && walk.fault.as_ref().is_none_or(|f| matches!(f.what, What::Trailing));
    match (got, &walk.fault) {
        (None, None) if !root_fault => {}
        // A root of the wrong type is such even if something follows it.
        (Some((E::PayloadsShouldBeObjectOrArray, 0)), _) if root_fault => {}
        (Some((kind, at)), Some(f)) => {
            if let Some(m) = judge_report(src, f, &kind, at) {
                w.fail("report", format!("{how} ({}): {kind:?} at {at}: {m}", util::show_cfg(cfg)));
            }
        }
        (got, f) => w.fail("verdict", format!("{how} ({}): {got:?}, fault {f:?}", util::show_cfg(cfg))),
    }
}

/// What an error says when displayed: its offset, and the byte or character it is about.
fn shown(w: &mut W, e: &justjson::Error) {
    let (all, kind) = (e.to_string(), e.kind().to_string());
    let about = match e.kind() {
        // Quotes and the backslash may be escaped.
        E::Unexpected(b) if b.is_ascii_graphic() && !matches!(b, b'\'' | b'"' | b'\\') => format!("'{}'", char::from(*b)),
        E::UnclosedObject => "'}'".into(),
        E::UnclosedArray => "']'".into(),
        E::ExpectedColon => "':'".into(),
        _ => String::new(),
    };
    w.check(!kind.is_empty() && kind.contains(&about), "display", || format!("{e:?}: its kind displays {kind:?}"));
    w.check(all.contains(&kind) && all.replacen(&kind, "", 1).contains(&e.offset().to_string()), "display", || format!("{e:?} displays {all:?}"));
}

fn judge(src: &[u8], w: &mut W) {
    if let Err(e) = Parser::validate_json_bytes(src) {
        shown(w, &e);
    }
    let text = std::str::from_utf8(src).ok();
    let mut reference: Vec<(bool, Option<usize>, rp::Walk)> = Vec::new();
    for (i, cfg) in CONFIGS.iter().enumerate() {
        if src.len() > 3000 && i > 0 {
            break;
        }
        if cfg.limit.is_none() && src.len() > 2000 {
            continue;
        }
        let walk = match reference.iter().position(|r| r.0 == cfg.trailing && r.1 == cfg.limit) {
            Some(p) => reference[p].2.clone(),
            None => {
                let r = rp::walk(src, cfg);
                reference.push((cfg.trailing, cfg.limit, r.clone()));
                r
            }
        };
        // Model state: what was due, where, and what the fault is.
        let code = walk.fault.as_ref().map_or(0, |f| {
            let what = match f.what {
                What::Grammar(t) => mix(50, t_code(t)),
                x => std::mem::discriminant(&x).hash_code(),
            };
            let s = mix(mix(f.exp as u64 + 1, f.top.map_or(0, |t| 1 + t as u64)), what);
            w.state(s);
            s
        });
        w.edge(code, mix(i as u64, u64::from(src.get(walk.fault.as_ref().map_or(0, |f| f.start)).copied().unwrap_or(0))));
        let conf = util::config(cfg);
        let got = Parser::validate_json_bytes_with_config(src, conf.clone()).err().map(|e| (e.kind().clone(), e.offset()));
        report(w, src, cfg, &walk, got, "validating bytes");
        if i < 2 {
            let got = Value::from_json_bytes_with_config(src, conf.clone()).err().map(|e| (e.kind().clone(), e.offset()));
            report(w, src, cfg, &walk, got, "value from bytes");
        }
        if let (Some(t), true) = (text, i == 0 || i == 3) {
            let got = Value::from_json_with_config(t, conf.clone()).err().map(|e| (e.kind().clone(), e.offset()));
            report(w, src, cfg, &walk, got, "value from text");
            let got = Document::from_json_with_config(t, conf).err().map(|e| (e.kind().clone(), e.offset()));
            report(w, src, cfg, &walk, got, "document from text");
        }
    }
    // The lone-value parsers blame the root token of a text of another type.
    if let Some(t) = text {
        let walk = &reference[0].2;
        let root_end = match rp::lex(src, 0) {
            Lex::Tok { end, .. } => end,
            _ => 0,
        };
        for (got, kind, is) in [
            (JsonString::from_json(t).err(), E::ExpectedString, matches!(walk.events.first(), Some(Ev::Str(..)))),
            (JsonNumber::from_json(t).err(), E::ExpectedNumber, matches!(walk.events.first(), Some(Ev::Num(..)))),
        ] {
            w.traces += 1;
            if let Some(e) = got {
                if *e.kind() == kind {
                    w.check(!is && e.offset() <= root_end, "report", || format!("lone value: {e:?} (root token ends at {root_end})"));
                } else if let Some(f) = &walk.fault {
                    if let Some(m) = judge_report(src, f, e.kind(), e.offset()) {
                        w.fail("report", format!("lone value: {e:?}: {m}"));
                    }
                } else {
                    w.fail("report", format!("lone value: {e:?} for a text without fault"));
                }
            }
        }
    }
    // The tokenizer names the first lexical fault.
    let mut at = 0;
    let mut tokens = Tokenizer::for_json_bytes(src);
    w.traces += 1;
    loop {
        match (rp::lex(src, at), tokens.next()) {
            (Lex::Eof, None) => {
                if let Err(e) = Tokenizer::<false>::next_or_eof(&mut tokens) {
                    w.check(*e.kind() == E::UnexpectedEof && e.offset() == src.len(), "report", || format!("next_or_eof: {e:?}"));
                }
                break;
            }
            (Lex::Tok { end, .. }, Some(Ok(_))) => at = end,
            (Lex::Bad { what, start, end }, Some(Err(e))) => {
                let f = Fault { prev_end: at, start, end, what, exp: Exp::Root, top: None };
                if let Some(m) = judge_report(src, &f, e.kind(), e.offset()) {
                    w.fail("report", format!("token: {e:?}: {m}"));
                }
                break;
            }
            (r, t) => {
                w.fail("verdict", format!("token {t:?}, expected {r:?}"));
                break;
            }
        }
        if at > 3000 {
            break;
        }
    }
}

trait HashCode {
    fn hash_code(&self) -> u64;
}
impl HashCode for std::mem::Discriminant<What> {
    fn hash_code(&self) -> u64 {
        use std::hash::{BuildHasher, BuildHasherDefault};
        BuildHasherDefault::<engine::IdHasher>::default().hash_one(self)
    }
}
fn t_code(t: Tk) -> u64 {
    match t {
        Tk::Null => 1,
        Tk::True => 2,
        Tk::False => 3,
        Tk::Str(..) => 4,
        Tk::Num => 5,
        Tk::Obj => 6,
        Tk::ObjEnd => 7,
        Tk::Arr => 8,
        Tk::ArrEnd => 9,
        Tk::Colon => 10,
        Tk::Comma => 11,
    }
}

/// Every token where another is due, after every kind of whitespace, in nested containers.
fn token_faults(tier: Tier) -> Vec<Family> {
    let bits: Vec<Vec<u8>> = ["{", "}", "[", "]", ",", ":", "\"k\"", "1", "true", "x", " \n", "-", "\"", "nul", "\"\\q", "\u{7f}", "1.", "\"\\u12"]
        .iter()
        .map(|s| s.as_bytes().to_vec())
        .collect();
    let mut v = vec![gen::words("tokens and broken tokens", &bits, tier.pick(4, 5), b"", b"")];
    for (p, s) in [("[ [", "]"), ("{\"a\" :\t{ \"b\"", "}"), ("[{\"a\":[1 ,", " 2]}]"), ("{\"a\":[{}", ",\"z\"]}"), ("[\n[] ", ""), ("{\"k\":\"v\" ", " ,}")] {
        v.push(gen::words(&format!("tokens and broken tokens in {p}_{s}"), &bits, 3, p.as_bytes(), s.as_bytes()));
    }
    v
}

fn families(tier: Tier) -> Vec<Family> {
    let mut v = gen::universe(tier, Cfg { trailing: false, limit: Some(128), root_any: true });
    v.push(gen::scalar_gaps(1, tier.pick(31, 1)));
    v.extend(token_faults(tier));
    v
}

fn main() {
    engine::main(Check {
        id: "C25",
        level: Level::ModelChecking,
        rule: "state = (what the grammar expects, innermost container, class of the first fault); transition = (state, configuration, first byte of the faulty token); each trace obtains one error report from one entry point of the real code and checks offset and kind against the reference fault",
        assumptions: &["Where a token is both lexically broken and not allowed at its place, a report of either truth is accepted"],
        families,
        judge,
        stack_mb: 0,
        show: engine::show_bytes,
    })
}
