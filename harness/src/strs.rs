//! Representations of JSON strings, and families of single representations and of pairs.
//! A representation is a tag byte (`P` parsed, `B` converted from borrowed text, `O` converted
//! from owned text) followed by the literal's content or the text. A pair is two of them
//! separated by 0xFF, which occurs in no UTF-8 text.

use crate::engine::{Family, Tier};
use crate::gen::{family, task, Sink};
use crate::{rp, util};
use justjson::{JsonString, Value};
use std::sync::Arc;

pub struct Repr<'a> {
    pub tag: u8,
    /// literal with quotes, or text
    pub src: String,
    pub content: &'a str,
    pub text: String,
    pub escapes: bool,
}

impl<'a> Repr<'a> {
    pub fn read(case: &'a [u8]) -> Option<Repr<'a>> {
        let (&tag, rest) = case.split_first()?;
        let content = std::str::from_utf8(rest).ok()?;
        match tag {
            b'P' => Some(Repr {
                tag,
                src: format!("\"{content}\""),
                content,
                text: rp::decode(rest, util::bs())?,
                escapes: rp::has_escape(rest),
            }),
            b'B' | b'O' => Some(Repr { tag, src: content.into(), content, text: content.into(), escapes: false }),
            _ => None,
        }
    }
    pub fn pair(case: &'a [u8]) -> Option<(Repr<'a>, Repr<'a>)> {
        let i = case.iter().position(|b| *b == 0xff)?;
        Some((Repr::read(&case[..i])?, Repr::read(&case[i + 1..])?))
    }
    pub fn make(&self) -> Option<JsonString<'_>> {
        match self.tag {
            b'P' => JsonString::from_json(&self.src).ok(),
            b'B' => Some(JsonString::from(self.src.as_str())),
            _ => Some(JsonString::from(self.src.clone())),
        }
    }
    /// The same representation obtained as a value.
    pub fn value(&self) -> Option<Value<'_>> {
        match self.tag {
            b'P' => Value::from_json(&self.src).ok(),
            b'B' => Some(Value::from(self.src.as_str())),
            _ => Some(Value::from(self.src.clone())),
        }
    }
    /// Hash of the abstract state: tag and decoded text.
    pub fn state(&self) -> u64 {
        crate::engine::hash_bytes(u64::from(self.tag) << 1 | u64::from(self.escapes), self.text.as_bytes())
    }
}

/// The abstract transition a comparison of two representations takes: kinds, lengths in source
/// and text, where the texts first differ, and how.
pub fn relation(a: &Repr<'_>, b: &Repr<'_>) -> u64 {
    let at = a.text.bytes().zip(b.text.bytes()).position(|(x, y)| x != y).unwrap_or(usize::MAX);
    let key = [
        a.tag as usize, b.tag as usize, a.escapes as usize, b.escapes as usize, a.content.len(), b.content.len(),
        a.text.len(), b.text.len(), at, a.text.cmp(&b.text) as usize,
    ];
    key.iter().fold(0, |h, k| crate::engine::mix(h, *k as u64))
}

pub fn show(case: &[u8]) -> String {
    case.split(|b| *b == 0xff).map(crate::engine::show_bytes).collect::<Vec<_>>().join(" <> ")
}

const PIECES: &[&str] = &[
    "a", "b", "\\u0061", "\\u0062", "\u{e9}", "\\u00E9", "\\n", "\\u000a", "\u{1f639}", "\\ud83d\\ude39", "\\\\", "\\\"",
    "\\/", "/", "\u{ffff}",
];
const CHARS: &[&str] = &["a", "b", "\u{e9}", "\n", "\u{1f639}", "\\", "\"", "/", "\u{ffff}", "\0"];

fn sequences(alpha: &[&str], max: usize) -> Vec<Vec<u8>> {
    let mut all: Vec<Vec<u8>> = vec![Vec::new()];
    let mut last = all.clone();
    for _ in 0..max {
        last = last
            .iter()
            .flat_map(|w| alpha.iter().map(move |a| [w.as_slice(), a.as_bytes()].concat()))
            .collect();
        all.extend(last.iter().cloned());
    }
    all
}

fn tagged(tag: u8, v: Vec<Vec<u8>>) -> impl Iterator<Item = Vec<u8>> {
    v.into_iter().map(move |c| [&[tag][..], &c].concat())
}

/// All representations of at most `p` literal pieces or `r` characters.
pub fn reprs(p: usize, r: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = tagged(b'P', sequences(PIECES, p)).collect();
    v.extend(tagged(b'B', sequences(CHARS, r)));
    v.extend(tagged(b'O', sequences(CHARS, r)));
    v
}

fn emit(sink: Sink<'_>, buf: &mut Vec<u8>, a: &[u8], b: &[u8]) {
    buf.clear();
    buf.extend(a);
    buf.push(0xff);
    buf.extend(b);
    sink(buf);
}

fn all_pairs_of(name: String, all: Vec<Vec<u8>>) -> Family {
    let all = Arc::new(all);
    let n = all.len();
    let step = n.div_ceil(200).max(1);
    let tasks = (0..n)
        .step_by(step)
        .map(|lo| {
            let all = all.clone();
            task(move |sink| {
                let mut buf = Vec::new();
                for a in &all[lo..(lo + step).min(n)] {
                    for b in all.iter() {
                        emit(sink, &mut buf, a, b);
                    }
                }
            })
        })
        .collect();
    family(&name, tasks)
}

/// Ways to write one character in a literal.
fn spellings(c: char) -> Vec<String> {
    let mut v = Vec::new();
    if c >= ' ' && c != '"' && c != '\\' {
        v.push(c.to_string());
    }
    let mut u = [0u16; 2];
    v.push(c.encode_utf16(&mut u).iter().map(|u| format!("\\u{u:04x}")).collect());
    match c {
        '\n' => v.push("\\n".into()),
        '/' => v.push("\\/".into()),
        '"' => v.push("\\\"".into()),
        _ => {}
    }
    v
}

/// Pairs of longer strings: equal, or different in exactly one place, at every place, in all
/// representations; prefixes of each other; same encoded length with different decoded length.
fn long_pairs(max: usize) -> Family {
    let mut tasks = Vec::new();
    let pairs: &[(char, char)] = &[
        ('a', 'b'), ('a', 'a'), ('a', '\u{e9}'), ('\u{e9}', '\u{ea}'), ('\n', '\t'), ('\n', '\n'), ('a', '\n'),
        ('\u{1f639}', '\u{1f63a}'), ('\u{1f639}', '\u{ffff}'), ('\u{e000}', '\u{10000}'), ('"', '#'), ('/', '/'), ('\u{7f}', '\u{80}'),
    ];
    for len in 0..=max {
        tasks.push(task(move |sink| {
            let mut buf = Vec::new();
            for pos in 0..=len {
                let pad = |c: &str| format!("{}{}{}", "x".repeat(pos), c, "y".repeat(len - pos));
                for (x, y) in pairs {
                    let reprs = |c: char| {
                        let mut v: Vec<Vec<u8>> = Vec::new();
                        for s in spellings(c) {
                            v.push(format!("P{}", pad(&s)).into_bytes());
                        }
                        v.push(format!("B{}", pad(&c.to_string())).into_bytes());
                        v.push(format!("O{}", pad(&c.to_string())).into_bytes());
                        // with an escape that makes the whole string an escaped one
                        v.push(format!("P\\n{}", pad(&spellings(c)[0])).into_bytes());
                        v.push(format!("B\n{}", pad(&c.to_string())).into_bytes());
                        v
                    };
                    for a in reprs(*x) {
                        for b in reprs(*y) {
                            emit(sink, &mut buf, &a, &b);
                            if x != y {
                                emit(sink, &mut buf, &b, &a);
                            }
                        }
                    }
                }
            }
        }));
        // prefixes
        tasks.push(task(move |sink| {
            let mut buf = Vec::new();
            for more in 0..=len {
                for c in ['a', '\u{e9}', '\n', '\u{1f639}'] {
                    let reprs = |n: usize| {
                        let mut v: Vec<Vec<u8>> = Vec::new();
                        for s in spellings(c) {
                            v.push(format!("P{}", s.repeat(n)).into_bytes());
                        }
                        v.push(format!("B{}", c.to_string().repeat(n)).into_bytes());
                        v.push(format!("O{}", c.to_string().repeat(n)).into_bytes());
                        v
                    };
                    for a in reprs(len) {
                        for b in reprs(more) {
                            emit(sink, &mut buf, &a, &b);
                        }
                    }
                }
            }
        }));
    }
    family(&format!("longer pairs, length<={max}: equal, one difference, prefixes"), tasks)
}

pub fn pairs(tier: Tier) -> Vec<Family> {
    let t = tier == Tier::Thorough;
    let mut small: Vec<Vec<u8>> =
        tagged(b'P', sequences(&["a", "\\u0061", "\u{e9}", "\\u00e9", "\\n", "\\ud83d\\ude39"], if t { 5 } else { 4 })).collect();
    small.extend(tagged(b'B', sequences(&["a", "\u{e9}", "\n", "\u{1f639}"], if t { 5 } else { 4 })));
    vec![
        all_pairs_of("all pairs of representations".into(), reprs(3, if t { 4 } else { 3 })),
        all_pairs_of("all pairs over a small alphabet, deeper".into(), small),
        long_pairs(if t { 70 } else { 24 }),
        mid_pairs(tier),
        swaps(tier),
        telling_pairs(),
        very_long_pairs(tier),
        scalar_pairs(tier),
        bit_pairs(tier),
    ]
}

/// Strings of middling length that differ in one place, at every place.
fn mid_pairs(tier: Tier) -> Family {
    let max = tier.pick(140, 300);
    let tasks = (25..=max)
        .map(|len| {
            task(move |sink| {
                let mut buf = Vec::new();
                for pos in 0..len {
                    let pad = |c: &str| format!("{}{c}{}", "x".repeat(pos), "x".repeat(len - pos - 1));
                    let (a, b) = (pad("a"), pad("b"));
                    let forms = |s: &str| [format!("P{s}"), format!("P\\n{s}"), format!("B{s}"), format!("O\n{s}")];
                    for x in forms(&a) {
                        for y in forms(&b) {
                            emit(sink, &mut buf, x.as_bytes(), y.as_bytes());
                        }
                    }
                }
            })
        })
        .collect();
    family(&format!("pairs of length <={max} with one difference, at every place"), tasks)
}

/// Two characters in either order, at every two places of strings of middling length.
fn swaps(tier: Tier) -> Family {
    let lens: Vec<usize> = tier.pick(vec![2, 3, 4, 5, 8, 9, 16, 17, 24, 31, 32, 33, 40, 65], (2..=130).collect());
    let chars = [("a", "b"), ("a", "\u{e9}"), ("\u{e9}", "\u{ea}"), ("\u{ffff}", "\u{10000}"), ("a", "A")];
    let tasks = lens
        .into_iter()
        .map(|len| {
            task(move |sink| {
                let mut buf = Vec::new();
                for i in 0..len {
                    for j in i + 1..len {
                        for (n, (x, y)) in chars.iter().enumerate() {
                            if n > 0 && len > 17 && (i + j) % 4 > 0 {
                                continue;
                            }
                            let put = |x: &str, y: &str| format!("{}{x}{}{y}{}", "x".repeat(i), "x".repeat(j - i - 1), "x".repeat(len - j - 1));
                            let (a, b) = (put(x, y), put(y, x));
                            let forms = |s: &str| [format!("P{s}"), format!("P\\n{s}"), format!("B\n{s}"), format!("O{s}")];
                            for p in forms(&a) {
                                for q in forms(&b) {
                                    emit(sink, &mut buf, p.as_bytes(), q.as_bytes());
                                    emit(sink, &mut buf, q.as_bytes(), p.as_bytes());
                                }
                            }
                        }
                    }
                }
            })
        })
        .collect();
    family("pairs that differ by two characters changing places", tasks)
}

/// All pairs of texts with a meaning elsewhere.
fn telling_pairs() -> Family {
    let mut all: Vec<Vec<u8>> = Vec::new();
    for s in crate::gen::TELLING {
        all.push(format!("P{s}").into_bytes());
        if let Some(text) = rp::decode(s.as_bytes(), util::bs()) {
            all.push(format!("B{text}").into_bytes());
        }
    }
    all_pairs_of("all pairs of texts with a meaning elsewhere".into(), all)
}

/// Equal texts, texts with one difference (first, middle, last place), and prefixes that are
/// shorter by a power of two, at lengths around the powers of two.
fn very_long_pairs(tier: Tier) -> Family {
    let t = tier == Tier::Thorough;
    let top = if t { 18 } else { 16 };
    let mut sizes = vec![100usize, 200, 300, 1000, 5000, 10_000, 50_000];
    for k in 5..=top {
        sizes.extend((1usize << k) - 1..=(1 << k) + 1);
    }
    let tasks = sizes
        .into_iter()
        .map(|n| {
            task(move |sink| {
                let mut buf = Vec::new();
                let reprs = |text: &str, lit: &str| {
                    ["P", "P\\n", "B", "O", "B\n", "O\n"]
                        .iter()
                        .map(|p| format!("{p}{}", if p.starts_with('P') { lit } else { text }).into_bytes())
                        .collect::<Vec<_>>()
                };
                let mut cross = |a: Vec<Vec<u8>>, b: Vec<Vec<u8>>| {
                    for x in &a {
                        for y in &b {
                            emit(sink, &mut buf, x, y);
                            emit(sink, &mut buf, y, x);
                        }
                    }
                };
                for pos in [0, n / 2, n] {
                    for (c, d) in [("a", "b"), ("a", "a"), ("\u{e9}", "\u{ea}"), ("\u{ffff}", "\u{10000}")] {
                        let pad = |c: &str| format!("{}{c}{}", "x".repeat(pos), "y".repeat(n - pos));
                        cross(reprs(&pad(c), &pad(c)), reprs(&pad(d), &pad(d)));
                    }
                }
                for k in 0..=usize::BITS - 1 - n.leading_zeros() {
                    for (text, lit) in [("x", "x"), ("\n", "\\n"), ("\u{e9}", "\\u00e9")] {
                        if n > 5000 && text != "x" && k < 7 {
                            continue;
                        }
                        let m = n - (1 << k);
                        cross(reprs(&text.repeat(n), &lit.repeat(n)), reprs(&text.repeat(m), &lit.repeat(m)));
                    }
                }
            })
        })
        .collect();
    family(&format!("pairs around lengths up to 2^{top}: equal, one difference, shorter by a power of two"), tasks)
}

/// Scalar values that differ in one bit, alone and inside text.
fn bit_pairs(tier: Tier) -> Family {
    let mut base: Vec<u32> = (0..0x300).collect();
    for k in 0..21 {
        base.extend((1u32 << k).saturating_sub(3)..=(1 << k) + 3);
    }
    base.extend((0..=0x10ffff).step_by(tier.pick(0x3fd, 0x35)));
    base.extend(0xd7f0..0xd800);
    base.extend(0xe000..0xe010);
    base.sort_unstable();
    base.dedup();
    let tasks = base
        .chunks(64)
        .map(|chunk| {
            let chunk = chunk.to_vec();
            task(move |sink| {
                let mut buf = Vec::new();
                for c in chunk.iter().filter_map(|n| char::from_u32(*n)) {
                    for d in (0..21).filter_map(|k| char::from_u32(c as u32 ^ 1 << k)) {
                        let reprs = |c: char| {
                            let mut v: Vec<Vec<u8>> = Vec::new();
                            for s in spellings(c) {
                                v.push(format!("P{s}").into_bytes());
                                v.push(format!("P\\t{s}z").into_bytes());
                            }
                            v.push(format!("B{c}").into_bytes());
                            v.push(format!("O\t{c}z").into_bytes());
                            v
                        };
                        for a in reprs(c) {
                            for b in reprs(d) {
                                emit(sink, &mut buf, &a, &b);
                            }
                        }
                    }
                }
            })
        })
        .collect();
    family("scalar values differing in one bit", tasks)
}

/// Every scalar value in all representations, with itself and with its neighbour.
fn scalar_pairs(tier: Tier) -> Family {
    let step = tier.pick(7, 1);
    let mut tasks = Vec::new();
    for block in 0..0x110u32 {
        tasks.push(task(move |sink| {
            let mut buf = Vec::new();
            for k in 0..0x1000u32 {
                let n = block << 12 | k;
                if n >= 0x3000 && n % step != 0 && n & 0xff != 0 && n & 0xff != 0xff {
                    continue;
                }
                let Some(c) = char::from_u32(n) else { continue };
                let d = (n + 1..=0x10ffff).find_map(char::from_u32).unwrap_or('a');
                let esc = |c: char| {
                    let mut u = [0u16; 2];
                    let u = c.encode_utf16(&mut u);
                    format!("P{}", u.iter().map(|u| format!("\\u{u:04X}")).collect::<String>()).into_bytes()
                };
                let lit = |c: char| {
                    if c < ' ' || c == '"' || c == '\\' {
                        esc(c)
                    } else {
                        format!("P{c}").into_bytes()
                    }
                };
                let raw = |c: char| format!("B{c}").into_bytes();
                emit(sink, &mut buf, &esc(c), &raw(c));
                emit(sink, &mut buf, &lit(c), &esc(c));
                emit(sink, &mut buf, &esc(c), &esc(d));
                emit(sink, &mut buf, &raw(d), &esc(c));
                emit(sink, &mut buf, &esc(d), &lit(c));
            }
        }));
    }
    family("scalar values and their neighbours", tasks)
}

/// Single representations: every literal of the C07 universe is too much for the hashing checks;
/// these are all representations of a few pieces, every scalar value and long strings.
pub fn singles(tier: Tier) -> Vec<Family> {
    let all = reprs(tier.pick(4, 5), tier.pick(5, 6));
    let mut tasks = Vec::new();
    let all = Arc::new(all);
    let n = all.len();
    let step = n.div_ceil(100);
    for lo in (0..n).step_by(step) {
        let all = all.clone();
        tasks.push(task(move |sink| {
            for a in &all[lo..(lo + step).min(n)] {
                sink(a);
            }
        }));
    }
    let mut long = Vec::new();
    for chunk in crate::gen::pump_sizes(tier).chunks(4) {
        let chunk = chunk.to_vec();
        long.push(task(move |sink| {
            for &n in &chunk {
                for (lit, text) in [("a", "a"), ("\\n", "\n"), ("\\u0061", "a"), ("\u{e9}", "\u{e9}"), ("\\ud83d\\ude39", "\u{1f639}"), ("\u{25ef}a", "\u{25ef}a")] {
                    for end in ["", "\\n", "x"] {
                        sink(format!("P{}{end}", lit.repeat(n)).as_bytes());
                    }
                    sink(format!("B{}", text.repeat(n)).as_bytes());
                    sink(format!("O{}", text.repeat(n)).as_bytes());
                }
            }
        }));
    }
    let mut scalars = Vec::new();
    for block in 0..0x110u32 {
        scalars.push(task(move |sink| {
            for k in 0..0x1000u32 {
                let Some(c) = char::from_u32(block << 12 | k) else { continue };
                let mut u = [0u16; 2];
                let u = c.encode_utf16(&mut u).iter().map(|u| format!("\\u{u:04x}")).collect::<String>();
                sink(format!("P{u}").as_bytes());
                sink(format!("Pa{u}b").as_bytes());
                sink(format!("B{c}").as_bytes());
            }
        }));
    }
    let far = crate::gen::far_sizes(tier)
        .into_iter()
        .map(|n| {
            task(move |sink| {
                let fill = "x".repeat(n);
                let ends = [("\\n", "\n"), ("\u{e9}", "\u{e9}"), ("", ""), ("\\ud83d\\ude39", "\u{1f639}"), ("\\u0000", "\0"), ("\\\"", "\""), ("\u{feff}", "\u{feff}")];
                for (lit, text) in ends.iter().take(if n > 200_000 { 1 } else if n > 5000 { 3 } else { 7 }) {
                    sink(format!("P{fill}{lit}yy").as_bytes());
                    sink(format!("B{fill}{text}yy").as_bytes());
                    if n < 5000 {
                        sink(format!("P{lit}{fill}{lit}").as_bytes());
                        sink(format!("O{text}{fill}{text}").as_bytes());
                    }
                }
            })
        })
        .collect();
    vec![
        family("something far into a text", far),
        family("all representations", tasks),
        family("long representations", long),
        family("every scalar value", scalars),
    ]
}

/// Fewer pairs, without owned text (for the builds without allocation).
pub fn probe_pairs(tier: Tier) -> Vec<Family> {
    let t = tier == Tier::Thorough;
    let mut small: Vec<Vec<u8>> = tagged(b'P', sequences(PIECES, if t { 3 } else { 2 })).collect();
    small.extend(tagged(b'B', sequences(CHARS, if t { 3 } else { 2 })));
    vec![all_pairs_of("pairs of representations".into(), small), long_pairs(if t { 24 } else { 8 })]
}

/// Pairs for copying one over the other: all small ones, and every mixture of sizes and kinds.
pub fn copies(tier: Tier) -> Vec<Family> {
    let small = reprs(2, tier.pick(2, 3));
    let mut sizes: Vec<usize> = vec![0, 1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 255, 256, 257, 1023, 1024, 4095, 4096, 4097];
    if tier == Tier::Thorough {
        sizes.extend([3, 5, 12, 14, 23, 24, 25, 48, 100, 511, 512, 2047, 2048, 8191, 8192, 32_767, 32_768, 65_535, 65_536, 65_537]);
    }
    let kinds = |n: usize| -> Vec<Vec<u8>> {
        let x = "x".repeat(n);
        vec![
            format!("P{x}"), format!("P{x}\\n"), format!("P\\u00e9{x}"), format!("P\u{e9}{x}"), format!("P{x}\\ud83d\\ude39"),
            format!("B{x}"), format!("B{x}\n"), format!("B\u{e9}{x}\""), format!("O{x}"), format!("O\n{x}"), format!("O{x}\u{e9}"),
        ]
        .into_iter()
        .map(String::into_bytes)
        .collect()
    };
    let tasks = sizes
        .iter()
        .map(|n| {
            let (n, sizes) = (*n, sizes.clone());
            task(move |sink| {
                let mut buf = Vec::new();
                for m in sizes.iter().filter(|m| n.max(**m) < 140 || [0, 1, 16, 64, n].contains(m) || [0, 1, 16, 64].contains(&n)) {
                    for a in kinds(n) {
                        for b in kinds(*m) {
                            emit(sink, &mut buf, &a, &b);
                        }
                    }
                }
            })
        })
        .collect();
    vec![all_pairs_of("all pairs of small representations".into(), small), family("pairs of every kind and size", tasks)]
}

/// A few hundred representations in pairs.
pub fn few_pairs(tier: Tier) -> Vec<Family> {
    let mut all: Vec<Vec<u8>> = tagged(b'P', sequences(&["a", "\\n", "\\u00e9", "\u{1f639}", "\\ud83d\\ude39"], tier.pick(3, 4))).collect();
    all.extend(tagged(b'B', sequences(&["a", "\n", "\"", "\u{1}", "\u{e9}"], tier.pick(3, 4))));
    let all = Arc::new(all);
    let over = ["P", "Pab", "P\\u0041\\n", "B\n\u{1}", "Oa\"b", "B\u{e9}"];
    let tasks = over
        .into_iter()
        .map(|a| {
            let all = all.clone();
            task(move |sink| {
                let mut buf = Vec::new();
                for b in all.iter() {
                    emit(sink, &mut buf, a.as_bytes(), b);
                }
            })
        })
        .collect();
    vec![family("iterators of small representations", tasks)]
}
