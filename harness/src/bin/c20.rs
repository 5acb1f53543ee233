//! C20: the tokenizer splits any source into its JSON tokens; peeking changes nothing.
use jjmc::engine::{self, mix, Check, Family, Level, Tier, W};
use jjmc::pda::Cfg;
use jjmc::rp::{self, Lex, Tk, What};
use jjmc::{gen, util};
use justjson::parser::{PeekableTokenKind as P, Token, Tokenizer};
use justjson::ErrorKind;

/// The reference tokens, and the first lexical fault.
struct Tokens {
    toks: Vec<(Tk, usize, usize)>,
    fault: Option<(What, usize, usize)>,
    len: usize,
}
fn reference(src: &[u8]) -> Tokens {
    let mut toks = Vec::new();
    let mut at = 0;
    loop {
        match rp::lex(src, at) {
            Lex::Eof => return Tokens { toks, fault: None, len: src.len() },
            Lex::Bad { what, start, end } => return Tokens { toks, fault: Some((what, start, end)), len: src.len() },
            Lex::Tok { tk, start, end } => {
                toks.push((tk, start, end));
                at = end;
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Peek,
    Next,
    OrEof,
}

fn peek_kind(b: u8) -> P {
    match b {
        b'{' => P::Object,
        b'}' => P::ObjectEnd,
        b'[' => P::Array,
        b']' => P::ArrayEnd,
        b',' => P::Comma,
        b':' => P::Colon,
        b'"' => P::String,
        b'-' | b'0'..=b'9' => P::Number,
        b't' => P::True,
        b'f' => P::False,
        b'n' => P::Null,
        _ => P::Unrecognized,
    }
}

fn same_token(src: &[u8], got: &Token<'_>, tk: Tk, start: usize, end: usize) -> Result<(), String> {
    match (got, tk) {
        (Token::Null, Tk::Null)
        | (Token::Bool(true), Tk::True)
        | (Token::Bool(false), Tk::False)
        | (Token::Object, Tk::Obj)
        | (Token::ObjectEnd, Tk::ObjEnd)
        | (Token::Array, Tk::Arr)
        | (Token::ArrayEnd, Tk::ArrEnd)
        | (Token::Colon, Tk::Colon)
        | (Token::Comma, Tk::Comma) => Ok(()),
        (Token::String(s), Tk::Str(a, b)) => {
            let r = s.as_json_str().map(|x| x.as_ptr() as usize);
            if r != Some(src.as_ptr() as usize + a) && a != b {
                return Err("string does not borrow its source".into());
            }
            util::same_string(s, src, (a, b))
        }
        (Token::Number(n), Tk::Num) => {
            if n.source().as_ptr() as usize != src.as_ptr() as usize + start {
                return Err("number does not borrow its source".into());
            }
            util::same_number(n, src, (start, end))
        }
        _ => Err(format!("token {got:?}, expected {tk:?}")),
    }
}

type Outcome = (Vec<(ErrorKind, usize)>, Vec<usize>);

/// Runs one operation pattern to the end (or the fault) on the real tokenizer. `ops(i)` is the
/// i-th operation; the run ends two consuming operations after the last token, or at the fault.
fn run<const G: bool>(
    w: &mut W, src: &[u8], m: &Tokens, t: &mut Tokenizer<'_, G>, how: &str, ops: &mut dyn FnMut(usize) -> Option<Op>,
) -> Option<Outcome> {
    let mut i = 0;
    let mut at = 0;
    let mut k = 0;
    let mut over = 0;
    let mut errs = Vec::new();
    let mut offs = Vec::new();
    w.traces += 1;
    while let Some(op) = ops(i) {
        i += 1;
        let want = m.toks.get(k).copied();
        let first = want.map(|t| t.1).or(m.fault.map(|f| f.1));
        if op == Op::Peek {
            let got = t.peek();
            let expect = first.map(|f| peek_kind(src[f]));
            if got != expect {
                w.fail("peek", format!("{how}: at token {k}: peek gives {got:?}, expected {expect:?}"));
                return None;
            }
            let off = t.offset();
            if off < at || off > first.unwrap_or(m.len) {
                w.fail("peek-offset", format!("{how}: at token {k}: offset {off} after peek, was {at}, the token starts at {first:?}"));
                return None;
            }
            at = off;
            continue;
        }
        let got = match op {
            Op::Next => t.next(),
            _ => Some(t.next_or_eof()),
        };
        let off = t.offset();
        match (want, got) {
            (Some((tk, s, e)), Some(Ok(tok))) => {
                if let Err(x) = same_token(src, &tok, tk, s, e) {
                    w.fail("token", format!("{how}: token {k}: {x}"));
                    return None;
                }
                if off != e {
                    w.fail("offset", format!("{how}: offset {off} after token {k}, which ends at {e}"));
                    return None;
                }
                at = off;
                offs.push(off);
                k += 1;
            }
            (None, None) if m.fault.is_none() && op == Op::Next => {
                over += 1;
            }
            (None, Some(Err(e))) if m.fault.is_none() && op == Op::OrEof => {
                if !matches!(e.kind(), ErrorKind::UnexpectedEof) || e.offset() != m.len {
                    w.fail("eof", format!("{how}: at the end (of {}): {e:?}", m.len));
                    return None;
                }
                over += 1;
            }
            (None, Some(Err(e))) if m.fault.is_some() => {
                let (what, s, end) = m.fault.unwrap();
                let o = e.offset();
                let prev = m.toks.last().map_or(0, |t| t.2);
                // For strings, an escape that is read on past the closing quote counts as well.
                let end = if matches!(what, What::Text | What::Hex(_)) { end.max(s + 1) + 8 } else { end };
                if o < prev || o > end.min(m.len) {
                    w.fail("fault-offset", format!("{how}: {e:?}, the fault is {what:?} in {s}..{end}"));
                }
                if matches!(e.kind(), ErrorKind::UnexpectedEof) && o != m.len {
                    w.fail("fault-eof", format!("{how}: {e:?} before the end ({})", m.len));
                }
                if off < at || off > m.len {
                    w.fail("offset", format!("{how}: offset {off} after the fault, was {at}"));
                }
                errs.push((e.kind().clone(), o));
                return Some((errs, offs));
            }
            (want, got) => {
                w.fail("token", format!("{how}: {op:?} gives {got:?}, expected {want:?} (fault {:?})", m.fault));
                return None;
            }
        }
        if over > 0 {
            if t.offset() > m.len || t.offset() < at {
                w.fail("offset", format!("{how}: offset {} at the end of {}", t.offset(), m.len));
            }
            at = t.offset();
            if over == 3 {
                break;
            }
        }
    }
    Some((errs, offs))
}

fn both(w: &mut W, src: &[u8], m: &Tokens, how: &str, ops: &dyn Fn(usize) -> Option<Op>) {
    let a = run(w, src, m, &mut Tokenizer::for_json_bytes(src), &format!("{how}, bytes"), &mut |i| ops(i));
    if let Ok(s) = std::str::from_utf8(src) {
        let b = run(w, src, m, &mut Tokenizer::for_json(s), &format!("{how}, text"), &mut |i| ops(i));
        if let (Some(a), Some(b)) = (a, b) {
            w.check(a == b, "text-bytes", || format!("{how}: text and bytes differ: {b:?} and {a:?}"));
        }
    }
}

/// The methods every iterator has: the size hint, counting, jumping, folding.
fn adaptors<const G: bool>(w: &mut W, src: &[u8], m: &Tokens, how: &str, fresh: impl Fn() -> Tokenizer<'static, G>) {
    let n = m.toks.len();
    let items = n + usize::from(m.fault.is_some());
    let hint = |w: &mut W, t: &Tokenizer<'_, G>, left: usize| {
        w.traces += 1;
        let (lo, hi) = t.size_hint();
        // After a fault the tokenizer may give more.
        let over = lo > left && m.fault.is_none();
        if over || hi.is_some_and(|h| h < left) {
            w.fail("size-hint", format!("{how}: size hint {lo}..{hi:?}, {left} items remain"));
        }
    };
    let mut t = fresh();
    for i in 0..=n {
        hint(w, &t, items - i);
        if i < n && !matches!(t.next(), Some(Ok(_))) {
            return;
        }
    }
    let check = |w: &mut W, what: &str, got: Option<Token<'_>>, k: usize| {
        w.traces += 1;
        let same = match (&got, m.toks.get(k)) {
            (None, None) => Ok(()),
            (Some(t), Some((tk, s, e))) => same_token(src, t, *tk, *s, *e),
            _ => Err(format!("{got:?}, expected token {k} of {n}")),
        };
        if let Err(e) = same {
            w.fail("adaptor", format!("{how}: {what}: {e}"));
        }
    };
    for k in [0, 1, 2, 3, n.saturating_sub(1)] {
        if k >= n {
            break;
        }
        let mut t = fresh();
        check(w, "nth", t.nth(k).and_then(Result::ok), k);
        hint(w, &t, items - k - 1);
        if t.offset() != m.toks[k].2 {
            w.fail("adaptor", format!("{how}: offset {} after nth({k}), which ends at {}", t.offset(), m.toks[k].2));
        }
        if k + 1 < n {
            check(w, "next after nth", t.next().and_then(Result::ok), k + 1);
        }
    }
    if m.fault.is_none() {
        w.traces += 1;
        let (c, f) = (fresh().count(), fresh().fold(0, |n, _| n + 1));
        if (c, f) != (n, n) {
            w.fail("adaptor", format!("{how}: {c} items counted, {f} folded, there are {n}"));
        }
        check(w, "last", fresh().last().and_then(Result::ok), n.checked_sub(1).unwrap_or(usize::MAX));
        for k in [n, n + 1, usize::MAX] {
            let mut t = fresh();
            let past = t.nth(k).is_some();
            w.check(!past && t.next().is_none(), "adaptor", || format!("{how}: nth({k}) of {n} items is some"));
        }
        for (i, t) in fresh().step_by(2).enumerate() {
            check(w, "step_by", t.ok(), i * 2);
        }
    }
}

/// Jumping, counting and folding give what single steps give, through faults and beyond.
fn steps<const G: bool>(w: &mut W, how: &str, fresh: impl Fn() -> Tokenizer<'static, G>) {
    let mut t = fresh();
    let mut all = Vec::new();
    let mut offs = Vec::new();
    while let Some(i) = t.next() {
        all.push(format!("{i:?}"));
        offs.push(t.offset());
        if all.len() > 400 {
            return;
        }
    }
    let n = all.len();
    let mut say = |what: &str, got: Option<String>, want: Option<&String>| {
        w.traces += 1;
        if got.as_ref() != want {
            w.fail("adaptor", format!("{how}: {what} gives {got:?}, single steps give {want:?}"));
        }
    };
    let show = |i| format!("{i:?}");
    for k in (0..=n).filter(|k| gen::notable(*k, n + 1, 6)) {
        let mut t = fresh();
        say("nth", t.nth(k).map(show), all.get(k));
        if k < n {
            say("offset after nth", Some(t.offset().to_string()), Some(&offs[k].to_string()));
        }
        say("next after nth", t.next().map(show), all.get(k + 1));
        let mut t = fresh();
        t.next();
        say("nth after next", t.nth(k).map(show), all.get(k + 1));
        say("skip", fresh().skip(k).next().map(show), all.get(k));
    }
    say("last", fresh().last().map(show), all.last());
    say("count", Some(fresh().count().to_string()), Some(&n.to_string()));
    let folded = fresh().fold(String::new(), |s, i| s + &show(i));
    say("fold", Some(folded), Some(&all.concat()));
    let bad = all.iter().position(|s| s.starts_with("Err"));
    say("position", fresh().position(|i| i.is_err()).map(|p| p.to_string()), bad.map(|p| p.to_string()).as_ref());
    say("find", fresh().find(Result::is_err).map(show), bad.map(|p| &all[p]));
    let collected = fresh().map(show).collect::<Vec<_>>().concat();
    say("collect", Some(collected), Some(&all.concat()));
    if n <= 3 {
        if let Some(m) = util::methods(&fresh, &all, &|i| format!("{i:?}")) {
            say("a method", Some(m), None);
        }
    }
    let ok = fresh().collect::<Result<Vec<_>, _>>().is_ok();
    say("collect", Some(ok.to_string()), Some(&bad.is_none().to_string()));
}

fn judge(src: &[u8], w: &mut W) {
    let m = reference(src);
    let mut h = 0;
    for (tk, s, e) in &m.toks {
        let l = match tk {
            Tk::Str(..) => 1,
            Tk::Num => 2,
            t => 3 + engine::hash_bytes(0, format!("{t:?}").as_bytes()),
        };
        w.state(h);
        w.edge(h, mix(l, (e - s) as u64));
        h = mix(h, mix(l, (e - s) as u64));
    }
    w.state(h);
    let n = m.toks.len();
    // Fixed patterns for every source.
    both(w, src, &m, "next", &|_| Some(Op::Next));
    both(w, src, &m, "next_or_eof", &|_| Some(Op::OrEof));
    both(w, src, &m, "peek, next", &|i| Some(if i % 2 == 0 { Op::Peek } else { Op::Next }));
    if src.len() > 300 {
        return;
    }
    // The tokens borrow from the case, which outlives this call.
    let still: &'static [u8] = unsafe { std::slice::from_raw_parts(src.as_ptr(), src.len()) };
    adaptors(w, src, &m, "bytes", || Tokenizer::for_json_bytes(still));
    if let Ok(s) = std::str::from_utf8(still) {
        adaptors(w, src, &m, "text", || Tokenizer::for_json(s));
    }
    if m.fault.is_some() || src.len() < 8 {
        steps(w, "bytes", || Tokenizer::for_json_bytes(still));
        if let Ok(s) = std::str::from_utf8(still) {
            steps(w, "text", || Tokenizer::for_json(s));
        }
    }
    both(w, src, &m, "peek, peek, next, next_or_eof", &|i| Some([Op::Peek, Op::Peek, Op::Next, Op::OrEof][i % 4]));
    both(w, src, &m, "next, peek, next_or_eof", &|i| Some([Op::Next, Op::Peek, Op::OrEof][i % 3]));
    // Every operation sequence for short token sequences.
    let max = if n <= 2 { w.tier.pick(5, 7) } else if n <= 4 { w.tier.pick(0, 6) } else { 0 };
    if max > 0 && src.len() < 24 {
        for code in 0..3usize.pow(max as u32) {
            let op = |i: usize| {
                if i >= max {
                    return None;
                }
                Some([Op::Peek, Op::Next, Op::OrEof][code / 3usize.pow(i as u32) % 3])
            };
            both(w, src, &m, "every sequence", &op);
            if !w.found.is_empty() {
                return;
            }
        }
    }
}

fn families(tier: Tier) -> Vec<Family> {
    let toks: Vec<Vec<u8>> = ["{", "}", "[", "]", ",", ":", "\"a\"", "\"\\n\"", "\"\"", "12", "-0", "1.5e3", "null", "true", "false", " ", "\n", "x", "nul", "\"", "-", "\u{e9}"]
        .iter()
        .map(|s| s.as_bytes().to_vec())
        .collect();
    let mut v = vec![gen::words("token sequences, grammatical or not", &toks, tier.pick(3, 4), b"", b"")];
    v.push(gen::scalar_gaps(tier.pick(41, 3), tier.pick(611, 31)));
    v.extend(gen::universe(tier, Cfg { trailing: true, limit: None, root_any: true }));
    v
}

fn main() {
    engine::main(Check {
        id: "C20",
        level: Level::ModelChecking,
        rule: "a state is a history of tokens (kind and length), a transition one more token; each trace drives the real tokenizer (bytes or text) with one operation pattern of peek / next / next_or_eof to the end or the first fault, comparing every token, borrowed range, peeked kind and offset with the reference lexer; for sources of at most two tokens every operation sequence of length 5 (thorough 7) is run; size_hint, nth, count, last, fold and step_by are compared as well, after a fault with single steps",
        assumptions: &["the reference decodes \\b the way the library does"],
        families,
        judge,
        stack_mb: 0,
        show: engine::show_bytes,
    })
}
