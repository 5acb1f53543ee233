//! C03: each configuration option changes acceptance exactly as documented.
use jjmc::engine::{self, Check, Family, Level, Tier, W};
use jjmc::pda::{self, Cfg, Pda};
use jjmc::{gen, util};
use justjson::doc::Document;
use justjson::parser::{ParseConfig, Parser};
use justjson::{Error, ErrorKind, Value};

const LIMITS: [Option<usize>; 7] = [None, Some(128), Some(0), Some(1), Some(2), Some(3), Some(5)];

fn judge(doc: &[u8], w: &mut W) {
    let mut ok = [[[false; 2]; 7]; 2];
    let mut p = Pda::new();
    for t in 0..2 {
        for (l, limit) in LIMITS.iter().enumerate() {
            for r in 0..2 {
                let cfg = Cfg { trailing: t == 1, limit: *limit, root_any: r == 1 };
                ok[t][l][r] = pda::accepts(doc, &cfg, &mut p);
            }
        }
    }
    util::trace_pda(doc, &Cfg { trailing: true, limit: None, root_any: true }, w);
    let text = std::str::from_utf8(doc).ok();
    for t in 0..2 {
        for (l, limit) in LIMITS.iter().enumerate() {
            for r in 0..2 {
                let cfg = Cfg { trailing: t == 1, limit: *limit, root_any: r == 1 };
                let pc = util::config(&cfg);
                let want = ok[t][l][r];
                let mut one = |name: &str, got: Result<(), Error>| {
                    w.traces += 1;
                    if got.is_ok() != want {
                        w.fail(
                            if want { "rejects" } else { "accepts" },
                            format!("{name} gives {got:?} with {}, but the text is {}", util::show_cfg(&cfg), if want { "allowed" } else { "not allowed" }),
                        );
                        return;
                    }
                    let Err(e) = got else { return };
                    // Rejected because of exactly one option: that option's error kind.
                    let cause = if ok[1][l][r] {
                        Some((ErrorKind::IllegalTrailingComma, "trailing commas"))
                    } else if ok[t][0][r] {
                        Some((ErrorKind::RecursionLimitReached, "the recursion limit"))
                    } else if ok[t][l][1] {
                        Some((ErrorKind::PayloadsShouldBeObjectOrArray, "the root type"))
                    } else {
                        None
                    };
                    if let Some((k, what)) = cause {
                        if *e.kind() != k {
                            w.fail("kind", format!("{name} rejects with {e:?} a text wrong only for {what} ({})", util::show_cfg(&cfg)));
                        }
                    }
                };
                one("validate_json_bytes_with_config", Parser::validate_json_bytes_with_config(doc, pc).map(|_| ()));
                if let Some(s) = text {
                    one("Value::from_json_with_config", Value::from_json_with_config(s, pc).map(|_| ()));
                }
                if l < 4 {
                    one("Document::from_json_bytes_with_config", Document::from_json_bytes_with_config(doc, pc).map(|_| ()));
                }
            }
        }
    }
    // Limits right at this text's own depth, and the largest.
    let loose = Cfg { trailing: true, limit: None, root_any: true };
    if pda::accepts(doc, &loose, &mut p) {
        let d = depth(doc);
        for limit in [d.wrapping_sub(1), d, d + 1, usize::MAX, usize::MAX - 1, 1 << 31, 1 << 32] {
            if limit == usize::MAX && d == 0 {
                continue;
            }
            let mut pc = ParseConfig::default();
            pc.allow_trailing_commas = true;
            pc.recursion_limit = Some(limit);
            let mut one = |name: &str, got: Result<(), Error>| {
                w.traces += 1;
                let ok = match &got {
                    Ok(()) => d <= limit,
                    Err(e) => d > limit && *e.kind() == ErrorKind::RecursionLimitReached,
                };
                w.check(ok, "own-depth", || format!("{name} gives {got:?} with limit {limit}, the text nests {d} deep"));
            };
            one("validate_json_bytes_with_config", Parser::validate_json_bytes_with_config(doc, pc).map(|_| ()));
            one("Value::from_json_bytes_with_config", Value::from_json_bytes_with_config(doc, pc).map(|_| ()));
            one("Document::from_json_bytes_with_config", Document::from_json_bytes_with_config(doc, pc).map(|_| ()));
        }
    }
    if doc.is_empty() {
        builders(w);
    }
}

/// How deep the containers of an accepted text nest.
fn depth(doc: &[u8]) -> usize {
    let (mut now, mut max, mut quoted, mut escaped) = (0usize, 0, false, false);
    for b in doc {
        match (quoted, escaped, b) {
            (true, true, _) => escaped = false,
            (true, false, b'\\') => escaped = true,
            (_, _, b'"') => quoted = !quoted,
            (false, _, b'[' | b'{') => {
                now += 1;
                max = max.max(now);
            }
            (false, _, b']' | b'}') => now -= 1,
            _ => {}
        }
    }
    max
}

/// The builder methods set their own option only, in every order.
fn builders(w: &mut W) {
    let ops: [(&str, fn(ParseConfig) -> ParseConfig, fn(&mut Cfg)); 6] = [
        ("trailing", |c| c.allowing_trailing_commas(), |c| c.trailing = true),
        ("nolimit", |c| c.without_recursion_limit(), |c| c.limit = None),
        ("limit0", |c| c.with_recursion_limit(0), |c| c.limit = Some(0)),
        ("limit7", |c| c.with_recursion_limit(7), |c| c.limit = Some(7)),
        ("all", |c| c.allowing_all_types_at_root(true), |c| c.root_any = true),
        ("containers", |c| c.allowing_all_types_at_root(false), |c| c.root_any = false),
    ];
    let starts: [(&str, ParseConfig, Cfg); 3] = [
        ("new", ParseConfig::new(), Cfg::DEFAULT),
        ("default", ParseConfig::default(), Cfg::DEFAULT),
        ("strict", ParseConfig::strict(), Cfg { root_any: false, ..Cfg::DEFAULT }),
    ];
    for (sn, sp, sc) in starts {
        let mut stack = vec![(sn.to_string(), sp, sc, 0)];
        while let Some((name, p, c, n)) = stack.pop() {
            w.traces += 1;
            if (p.allow_trailing_commas, p.recursion_limit, p.allow_all_types_at_root) != (c.trailing, c.limit, c.root_any) {
                w.fail("builder", format!("{name}: {p:?}, expected {c:?}"));
            }
            if n < 4 {
                for (on, of, om) in &ops {
                    let mut c2 = c;
                    om(&mut c2);
                    stack.push((format!("{name}.{on}"), of(p), c2, n + 1));
                }
            }
        }
    }
}

/// Every nesting pattern up to a depth, with siblings before and after.
fn nests(max: usize) -> Family {
    let opens: Vec<(&str, &str)> = vec![("[", "]"), ("{\"a\":", "}"), ("[[],", ",{}]"), ("{\"a\":{},\"b\":", ",\"c\":[[]]}"), ("[", ",]"), ("{\"a\":", ",}")];
    let mut tasks = Vec::new();
    for first in 0..opens.len() {
        for second in 0..opens.len() {
            let opens = opens.clone();
            tasks.push(gen::task(move |sink| {
                fn rec(o: &[(&str, &str)], pre: &str, post: &str, left: usize, sink: &mut dyn FnMut(&[u8])) {
                    for mid in ["", "0", "[]", "{}", "0,"] {
                        sink(format!("{pre}{mid}{post}").as_bytes());
                    }
                    if left > 0 {
                        for (a, b) in o {
                            rec(o, &format!("{pre}{a}"), &format!("{b}{post}"), left - 1, sink);
                        }
                    }
                }
                let (a, b) = (opens[first], opens[second]);
                rec(&opens, &format!("{}{}", a.0, b.0), &format!("{}{}", b.1, a.1), max - 2, sink);
            }));
        }
    }
    gen::family(&format!("nesting patterns with siblings and trailing commas, depth<={max}"), tasks)
}

/// Depths up to and around powers of two, the deepest place early, in the middle and late.
fn deep(tier: Tier) -> Family {
    let mut sizes: Vec<usize> = (100..=300).collect();
    for k in 9..=tier.pick(13, 17) {
        sizes.extend((1usize << k) - 1..=(1 << k) + 1);
    }
    sizes.extend([1000, 10_000, 65_535, 65_536, 65_537]);
    let tasks = sizes
        .into_iter()
        .map(|n| {
            gen::task(move |sink| {
                for (o, c) in [("[", "]"), ("{\"a\":", "}"), ("[{\"a\":", "}]"), ("[[],", "]"), ("[", ",{}]"), ("[", ",]"), ("{\"a\":", ",\"b\":[1]}")] {
                    let half = if o.len() > 6 { n / 2 } else { n };
                    let mid = if o.len() > 6 && n % 2 == 1 { "[]" } else { "" };
                    let inner = match (mid, o.ends_with(':')) {
                        ("", true) => "0",
                        (m, _) => m,
                    };
                    // "[,]" is not a text, an element goes inside
                    let inner = if c == ",]" || c == ",{}]" { "1" } else { inner };
                    let d = format!("{}{inner}{}", o.repeat(half), c.repeat(half));
                    sink(d.as_bytes());
                    if n <= 300 {
                        sink(format!("[{d},{d}]").as_bytes());
                        sink(format!("[1,{{\"x\":{{}}}},{d},[[]]]").as_bytes());
                        sink(format!("{{\"x\":{d},\"y\":[]}}").as_bytes());
                    }
                }
            })
        })
        .collect();
    gen::family("depths up to and around powers of two", tasks)
}

fn families(tier: Tier) -> Vec<Family> {
    let loose = Cfg { trailing: true, limit: None, root_any: true };
    let mut v = vec![
        nests(tier.pick(6, 8)),
        deep(tier),
        gen::token_trie(loose, tier.pick(7, 9)),
        gen::trees(tier.pick(5, 6), 2, true, 2),
        gen::cover(Cfg { trailing: true, limit: Some(2), root_any: true }, tier.pick(2, 3), false),
        gen::cover(Cfg { trailing: false, limit: Some(1), root_any: false }, 1, true),
        gen::pumps(tier),
        gen::mutations(false),
        gen::class_bytes(tier.pick(3, 4)),
    ];
    v.extend(gen::numbers(tier.pick(4, 5)));
    v
}

fn main() {
    engine::main(Check {
        id: "C03",
        level: Level::ModelChecking,
        rule: "states: configurations of the reference acceptor reached by the texts; transitions: (configuration, byte); each trace is one text under one of 28 option settings through one entry point, compared with the acceptor run under the same options",
        assumptions: &["option combinations: trailing x limit in {none,128,0,1,2,3,5} x root, and every accepted text at limits around its own depth and the largest limits"],
        families,
        judge,
        stack_mb: 0,
        show: engine::show_bytes,
    })
}
