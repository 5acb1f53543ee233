//! Reference model 2: a token-level lexer, grammar walker, tree builder, string decoder and
//! printers, written from RFC 8259 independently of both the implementation and `pda`.

use crate::pda::{Cfg, Frame};

pub type Range = (usize, usize);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Tk {
    Null,
    True,
    False,
    /// content without the quotes
    Str(usize, usize),
    Num,
    Obj,
    ObjEnd,
    Arr,
    ArrEnd,
    Colon,
    Comma,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum What {
    /// No more tokens.
    Eof,
    /// The text ends inside a literal name.
    LitCut,
    /// The text ends inside a string.
    StrCut,
    BadByte,
    Lit(usize),
    Digit(usize),
    Frac(usize),
    Exp(usize),
    Ctl(usize),
    Esc(usize),
    Hex(usize),
    /// Invalid UTF-8 or an unpaired surrogate escape.
    Text,
    Grammar(Tk),
    Depth,
    Trailing,
}

#[derive(Clone, Copy, Debug)]
pub enum Lex {
    Eof,
    Tok { tk: Tk, start: usize, end: usize },
    /// `end`: one past the part of the text that can be attributed to this token
    Bad { what: What, start: usize, end: usize },
}

fn ws(b: u8) -> bool {
    matches!(b, b' ' | b'\t' | b'\n' | b'\r')
}

pub fn skip_ws(src: &[u8], mut at: usize) -> usize {
    while at < src.len() && ws(src[at]) {
        at += 1;
    }
    at
}

fn hex4(src: &[u8], at: usize) -> Option<u32> {
    let s = src.get(at..at + 4)?;
    if !s.iter().all(u8::is_ascii_hexdigit) {
        return None;
    }
    u32::from_str_radix(std::str::from_utf8(s).ok()?, 16).ok()
}

/// First byte after the string's closing quote, or None if it is not closed.
fn string_end(src: &[u8], open: usize) -> Option<usize> {
    let mut i = open + 1;
    while i < src.len() {
        match src[i] {
            b'"' => return Some(i + 1),
            b'\\' => i += 2,
            _ => i += 1,
        }
    }
    None
}

fn lex_string(src: &[u8], open: usize) -> Lex {
    let extent = string_end(src, open).unwrap_or(src.len());
    let bad = |what| Lex::Bad { what, start: open, end: extent };
    let mut i = open + 1;
    loop {
        let Some(&b) = src.get(i) else { return bad(What::StrCut) };
        match b {
            b'"' => return Lex::Tok { tk: Tk::Str(open + 1, i), start: open, end: i + 1 },
            0..=0x1f => return bad(What::Ctl(i)),
            b'\\' => {
                let Some(&e) = src.get(i + 1) else { return bad(What::StrCut) };
                match e {
                    b'"' | b'\\' | b'/' | b'b' | b'f' | b'n' | b'r' | b't' => i += 2,
                    b'u' => {
                        for k in 0..4 {
                            match src.get(i + 2 + k) {
                                None => return bad(What::StrCut),
                                Some(d) if !d.is_ascii_hexdigit() => {
                                    return bad(What::Hex(i + 2 + k))
                                }
                                _ => {}
                            }
                        }
                        let v = hex4(src, i + 2).unwrap();
                        if (0xdc00..=0xdfff).contains(&v) {
                            return bad(What::Text);
                        }
                        i += 6;
                        if (0xd800..=0xdbff).contains(&v) {
                            let rest = &src[i..src.len().min(i + 6)];
                            let want = [b'\\', b'u'];
                            let n = rest.len().min(2);
                            if rest[..n] != want[..n] {
                                return bad(What::Text);
                            }
                            let digits = &rest[n..];
                            for (k, d) in digits.iter().enumerate() {
                                let ok = match k {
                                    0 => matches!(d, b'd' | b'D'),
                                    1 => matches!(d, b'c'..=b'f' | b'C'..=b'F'),
                                    _ => true,
                                };
                                if !d.is_ascii_hexdigit() {
                                    return bad(What::Hex(i + 2 + k));
                                }
                                if !ok {
                                    return bad(What::Text);
                                }
                            }
                            if rest.len() < 6 {
                                return bad(What::StrCut);
                            }
                            i += 6;
                        }
                    }
                    _ => return bad(What::Esc(i + 1)),
                }
            }
            0x80..=0xff => {
                let mut j = i;
                while j < src.len() && src[j] >= 0x80 {
                    j += 1;
                }
                if std::str::from_utf8(&src[i..j]).is_err() {
                    return bad(What::Text);
                }
                i = j;
            }
            _ => i += 1,
        }
    }
}

fn lex_number(src: &[u8], start: usize) -> Lex {
    let digits = |mut i: usize| {
        while i < src.len() && src[i].is_ascii_digit() {
            i += 1;
        }
        i
    };
    let bad = |what, at: usize| Lex::Bad { what, start, end: (at + 1).min(src.len()) };
    let mut i = start;
    if src[i] == b'-' {
        i += 1;
    }
    match src.get(i) {
        Some(b'0') => i += 1,
        Some(b'1'..=b'9') => i = digits(i),
        _ => return bad(What::Digit(i), i),
    }
    if src.get(i) == Some(&b'.') {
        let j = digits(i + 1);
        if j == i + 1 {
            return bad(What::Frac(j), j);
        }
        i = j;
    }
    if matches!(src.get(i), Some(b'e' | b'E')) {
        let mut j = i + 1;
        if matches!(src.get(j), Some(b'+' | b'-')) {
            j += 1;
        }
        let k = digits(j);
        if k == j {
            return bad(What::Exp(k), k);
        }
        i = k;
    }
    Lex::Tok { tk: Tk::Num, start, end: i }
}

/// The maximal-munch token at or after `at`.
pub fn lex(src: &[u8], at: usize) -> Lex {
    let start = skip_ws(src, at);
    let Some(&b) = src.get(start) else { return Lex::Eof };
    let one = |tk| Lex::Tok { tk, start, end: start + 1 };
    let word = |w: &[u8], tk| {
        for (k, c) in w.iter().enumerate() {
            match src.get(start + k) {
                None => return Lex::Bad { what: What::LitCut, start, end: src.len() },
                Some(x) if x != c => {
                    return Lex::Bad { what: What::Lit(start + k), start, end: start + k + 1 }
                }
                _ => {}
            }
        }
        Lex::Tok { tk, start, end: start + w.len() }
    };
    match b {
        b'{' => one(Tk::Obj),
        b'}' => one(Tk::ObjEnd),
        b'[' => one(Tk::Arr),
        b']' => one(Tk::ArrEnd),
        b':' => one(Tk::Colon),
        b',' => one(Tk::Comma),
        b'n' => word(b"null", Tk::Null),
        b't' => word(b"true", Tk::True),
        b'f' => word(b"false", Tk::False),
        b'"' => lex_string(src, start),
        b'-' | b'0'..=b'9' => lex_number(src, start),
        _ => Lex::Bad { what: What::BadByte, start, end: start + 1 },
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ev {
    Null,
    Bool(bool),
    /// literal text
    Num(usize, usize),
    /// content without quotes
    Str(usize, usize),
    BeginArr,
    ArrVal,
    EndArr,
    BeginObj,
    Key(usize, usize),
    ObjVal,
    EndObj,
}

/// What the grammar expects next.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Exp {
    Root,
    ArrFirst,
    ArrNext,
    KeyFirst,
    KeyNext,
    Colon,
    ObjVal,
    /// a value just ended
    After,
}

#[derive(Clone, Copy, Debug)]
pub struct Fault {
    pub prev_end: usize,
    pub start: usize,
    pub end: usize,
    pub what: What,
    pub exp: Exp,
    pub top: Option<Frame>,
}

#[derive(Clone, Debug)]
pub struct Walk {
    pub events: Vec<Ev>,
    pub fault: Option<Fault>,
    pub max_depth: usize,
}

/// Walks the text token by token, listing the events of a parse up to the first fault.
/// `cfg.root_any` is not considered.
pub fn walk(src: &[u8], cfg: &Cfg) -> Walk {
    let mut events = Vec::new();
    let mut stack: Vec<Frame> = Vec::new();
    let mut exp = Exp::Root;
    let mut at = 0;
    let mut max_depth = 0;
    let fault = loop {
        let top = stack.last().copied();
        let fail = |what, start, end| Some(Fault { prev_end: at, start, end, what, exp, top });
        let (tk, start, end) = match lex(src, at) {
            Lex::Eof => {
                if exp == Exp::After && stack.is_empty() {
                    break None;
                }
                break fail(What::Eof, src.len(), src.len());
            }
            Lex::Bad { what, start, end } => {
                if exp == Exp::After && stack.is_empty() {
                    break fail(What::Trailing, start, end);
                }
                break fail(what, start, end);
            }
            Lex::Tok { tk, start, end } => (tk, start, end),
        };
        let grammar = fail(What::Grammar(tk), start, end);
        let mut ended = false;
        match exp {
            Exp::After => match (top, tk) {
                (None, _) => break fail(What::Trailing, start, end),
                (Some(Frame::Arr), Tk::Comma) => exp = Exp::ArrNext,
                (Some(Frame::Obj), Tk::Comma) => exp = Exp::KeyNext,
                (Some(Frame::Arr), Tk::ArrEnd) | (Some(Frame::Obj), Tk::ObjEnd) => ended = true,
                _ => break grammar,
            },
            Exp::Colon => {
                if tk != Tk::Colon {
                    break grammar;
                }
                exp = Exp::ObjVal;
            }
            Exp::KeyFirst | Exp::KeyNext => match tk {
                Tk::Str(s, e) => {
                    events.push(Ev::Key(s, e));
                    exp = Exp::Colon;
                }
                Tk::ObjEnd if exp == Exp::KeyFirst || cfg.trailing => ended = true,
                _ => break grammar,
            },
            Exp::ArrFirst | Exp::ArrNext | Exp::Root | Exp::ObjVal => {
                let mut scalar = true;
                match tk {
                    Tk::ArrEnd if exp == Exp::ArrFirst || (exp == Exp::ArrNext && cfg.trailing) => {
                        ended = true;
                        scalar = false;
                    }
                    Tk::Null => events.push(Ev::Null),
                    Tk::True => events.push(Ev::Bool(true)),
                    Tk::False => events.push(Ev::Bool(false)),
                    Tk::Num => events.push(Ev::Num(start, end)),
                    Tk::Str(s, e) => events.push(Ev::Str(s, e)),
                    Tk::Arr | Tk::Obj => {
                        if cfg.limit.is_some_and(|l| stack.len() >= l) {
                            break fail(What::Depth, start, end);
                        }
                        scalar = false;
                        let f = if tk == Tk::Arr { Frame::Arr } else { Frame::Obj };
                        stack.push(f);
                        max_depth = max_depth.max(stack.len());
                        events.push(if tk == Tk::Arr { Ev::BeginArr } else { Ev::BeginObj });
                        exp = if tk == Tk::Arr { Exp::ArrFirst } else { Exp::KeyFirst };
                    }
                    _ => break grammar,
                }
                if scalar {
                    match top {
                        Some(Frame::Arr) => events.push(Ev::ArrVal),
                        Some(Frame::Obj) => events.push(Ev::ObjVal),
                        None => {}
                    }
                    exp = Exp::After;
                }
            }
        }
        if ended {
            events.push(match stack.pop() {
                Some(Frame::Arr) => Ev::EndArr,
                _ => Ev::EndObj,
            });
            match stack.last() {
                Some(Frame::Arr) => events.push(Ev::ArrVal),
                Some(Frame::Obj) => events.push(Ev::ObjVal),
                None => {}
            }
            exp = Exp::After;
        }
        at = end;
    };
    Walk { events, fault, max_depth }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum RVal {
    Null,
    Bool(bool),
    Num(Range),
    Str(Range),
    Arr(Vec<RVal>),
    Obj(Vec<(Range, RVal)>),
}

impl RVal {
    pub fn kind(&self) -> u8 {
        match self {
            RVal::Null => b'n',
            RVal::Bool(_) => b'b',
            RVal::Num(_) => b'#',
            RVal::Str(_) => b's',
            RVal::Arr(_) => b'a',
            RVal::Obj(_) => b'o',
        }
    }
    /// Number of document nodes of this value.
    pub fn nodes(&self) -> usize {
        match self {
            RVal::Arr(v) => 1 + v.iter().map(RVal::nodes).sum::<usize>(),
            RVal::Obj(v) => 1 + v.iter().map(|(_, v)| 1 + v.nodes()).sum::<usize>(),
            _ => 1,
        }
    }
}

pub fn tree_of(events: &[Ev]) -> RVal {
    enum Part {
        A(Vec<RVal>),
        O(Vec<(Range, RVal)>),
    }
    let mut stack: Vec<Part> = Vec::new();
    let mut keys: Vec<Range> = Vec::new();
    let mut done: Option<RVal> = None;
    for e in events {
        match *e {
            Ev::Null => done = Some(RVal::Null),
            Ev::Bool(b) => done = Some(RVal::Bool(b)),
            Ev::Num(s, e) => done = Some(RVal::Num((s, e))),
            Ev::Str(s, e) => done = Some(RVal::Str((s, e))),
            Ev::BeginArr => stack.push(Part::A(Vec::new())),
            Ev::BeginObj => stack.push(Part::O(Vec::new())),
            Ev::Key(s, e) => keys.push((s, e)),
            Ev::ArrVal => {
                if let Some(Part::A(v)) = stack.last_mut() {
                    v.push(done.take().expect("value"));
                }
            }
            Ev::ObjVal => {
                if let Some(Part::O(v)) = stack.last_mut() {
                    v.push((keys.pop().expect("key"), done.take().expect("value")));
                }
            }
            Ev::EndArr | Ev::EndObj => {
                done = Some(match stack.pop().expect("open") {
                    Part::A(v) => RVal::Arr(v),
                    Part::O(v) => RVal::Obj(v),
                });
            }
        }
    }
    done.expect("complete")
}

/// The tree of an accepted text (None if the text is not accepted).
pub fn parse(src: &[u8], cfg: &Cfg) -> Option<RVal> {
    let w = walk(src, cfg);
    if w.fault.is_some() {
        return None;
    }
    let t = tree_of(&w.events);
    if !cfg.root_any && !matches!(t, RVal::Arr(_) | RVal::Obj(_)) {
        return None;
    }
    Some(t)
}

/// A document node of the reference model.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum RNode {
    Null,
    Bool(bool),
    Num(usize, usize),
    Str(usize, usize),
    Obj(usize),
    Arr(usize),
}

pub fn preorder(v: &RVal, out: &mut Vec<RNode>) {
    match v {
        RVal::Null => out.push(RNode::Null),
        RVal::Bool(b) => out.push(RNode::Bool(*b)),
        RVal::Num((s, e)) => out.push(RNode::Num(*s, *e)),
        RVal::Str((s, e)) => out.push(RNode::Str(*s, *e)),
        RVal::Arr(a) => {
            out.push(RNode::Arr(a.len()));
            for v in a {
                preorder(v, out);
            }
        }
        RVal::Obj(o) => {
            out.push(RNode::Obj(o.len()));
            for ((s, e), v) in o {
                out.push(RNode::Str(*s, *e));
                preorder(v, out);
            }
        }
    }
}

/// Decodes the content of a JSON string per RFC 8259. `bs` is what `\b` stands for (U+0008).
pub fn decode(content: &[u8], bs: char) -> Option<String> {
    let mut out = Vec::new();
    let push = |c: char, out: &mut Vec<u8>| {
        let mut b = [0; 4];
        out.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
    };
    let mut i = 0;
    while i < content.len() {
        let b = content[i];
        if b != b'\\' {
            if b < 0x20 || b == b'"' {
                return None;
            }
            out.push(b);
            i += 1;
            continue;
        }
        match *content.get(i + 1)? {
            c @ (b'"' | b'\\' | b'/') => push(c as char, &mut out),
            b'b' => push(bs, &mut out),
            b'f' => push('\u{c}', &mut out),
            b'n' => push('\n', &mut out),
            b'r' => push('\r', &mut out),
            b't' => push('\t', &mut out),
            b'u' => {
                let v = hex4(content, i + 2)?;
                i += 6;
                match v {
                    0xd800..=0xdbff => {
                        if content.get(i..i + 2)? != b"\\u" {
                            return None;
                        }
                        let l = hex4(content, i + 2)?;
                        if !(0xdc00..=0xdfff).contains(&l) {
                            return None;
                        }
                        i += 6;
                        push(char::from_u32(0x10000 + (v - 0xd800) * 0x400 + (l - 0xdc00))?, &mut out);
                    }
                    0xdc00..=0xdfff => return None,
                    v => push(char::from_u32(v)?, &mut out),
                }
                continue;
            }
            _ => return None,
        }
        i += 2;
    }
    String::from_utf8(out).ok()
}

/// Whether an accepted string's content has any escape.
pub fn has_escape(content: &[u8]) -> bool {
    content.contains(&b'\\')
}

/// Removes insignificant whitespace and trailing commas by scanning the text.
pub fn strip(src: &[u8]) -> Vec<u8> {
    let mut out: Vec<u8> = Vec::new();
    let mut i = 0;
    while i < src.len() {
        let b = src[i];
        if b == b'"' {
            let e = string_end(src, i).unwrap_or(src.len());
            out.extend_from_slice(&src[i..e]);
            i = e;
            continue;
        }
        if (b == b']' || b == b'}') && out.last() == Some(&b',') {
            out.pop();
        }
        if !ws(b) {
            out.push(b);
        }
        i += 1;
    }
    out
}

/// The fixed pretty layout.
pub fn pretty(src: &[u8], v: &RVal, indent: &str, eol: &str) -> Vec<u8> {
    fn go(src: &[u8], v: &RVal, indent: &str, eol: &str, level: usize, out: &mut Vec<u8>) {
        let line = |level: usize, out: &mut Vec<u8>| {
            out.extend_from_slice(eol.as_bytes());
            for _ in 0..level {
                out.extend_from_slice(indent.as_bytes());
            }
        };
        let string = |(s, e): Range, out: &mut Vec<u8>| {
            out.push(b'"');
            out.extend_from_slice(&src[s..e]);
            out.push(b'"');
        };
        match v {
            RVal::Null => out.extend_from_slice(b"null"),
            RVal::Bool(true) => out.extend_from_slice(b"true"),
            RVal::Bool(false) => out.extend_from_slice(b"false"),
            RVal::Num((s, e)) => out.extend_from_slice(&src[*s..*e]),
            RVal::Str(r) => string(*r, out),
            RVal::Arr(a) => {
                out.push(b'[');
                for (i, v) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(b',');
                    }
                    line(level + 1, out);
                    go(src, v, indent, eol, level + 1, out);
                }
                if !a.is_empty() {
                    line(level, out);
                }
                out.push(b']');
            }
            RVal::Obj(o) => {
                out.push(b'{');
                for (i, (k, v)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push(b',');
                    }
                    line(level + 1, out);
                    string(*k, out);
                    out.extend_from_slice(b": ");
                    go(src, v, indent, eol, level + 1, out);
                }
                if !o.is_empty() {
                    line(level, out);
                }
                out.push(b'}');
            }
        }
    }
    let mut out = Vec::new();
    go(src, v, indent, eol, 0, &mut out);
    out
}
