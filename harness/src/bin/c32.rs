//! C32: what a call gives depends on its arguments alone.
//!
//! Histories, interleavings and nestings run in processes of their own (`--ops`), which compare
//! every transcript with the transcript of the same use in a fresh process.
use jjmc::engine::{self, hash_bytes, mix, Check, Family, Level, Tier, W};
use jjmc::gen::{self, family, task};
use jjmc::ops;
use jjmc::pda::Cfg;
use jjmc::util;
use justjson::doc::Document;
use justjson::parser::{Parser, Token, Tokenizer};
use justjson::{JsonNumber, JsonString, Value};
use std::cell::Cell;
use std::fmt::Write;
use std::process::Command;
use std::sync::{Condvar, Mutex, OnceLock};

extern "C" {
    fn alarm(seconds: u32) -> u32;
}

// ---- in a process of its own ----

fn none() {}
fn told(k: usize, gate: ops::Gate<'_>) -> u64 {
    hash_bytes(k as u64, ops::run(k, gate).as_bytes())
}
struct Base(Vec<u64>);
impl Base {
    /// Runs use `k`; ends the process if it does not give what it gives in a fresh process.
    fn run(&self, k: usize, gate: ops::Gate<'_>, how: impl FnOnce() -> String) {
        let t = ops::run(k, gate);
        if hash_bytes(k as u64, t.as_bytes()) != self.0[k] {
            println!("{}: \"{}\" gives {}", how(), ops::NAMES[k], t.chars().take(600).collect::<String>());
            std::process::exit(1);
        }
    }
}
fn gates(k: usize) -> usize {
    let n = Cell::new(0);
    ops::run(k, &|| n.set(n.get() + 1));
    n.get()
}

/// Two uses on two threads, one at a time, changing over only where `order` says.
struct Turns {
    /// position in the order, which uses are over
    at: Mutex<(usize, [bool; 2])>,
    cv: Condvar,
    order: Vec<u8>,
}
impl Turns {
    fn wait(&self, me: u8) {
        let mut g = self.at.lock().unwrap();
        loop {
            while g.0 < self.order.len() && g.1[self.order[g.0] as usize] {
                g.0 += 1;
            }
            if g.0 >= self.order.len() || self.order[g.0] == me {
                return;
            }
            g = self.cv.wait(g).unwrap();
        }
    }
    fn pass(&self, me: u8, over: bool) {
        let mut g = self.at.lock().unwrap();
        g.0 += 1;
        g.1[me as usize] |= over;
        self.cv.notify_all();
    }
}

fn orders(a: usize, b: usize, prefix: &mut Vec<u8>, f: &mut dyn FnMut(&[u8])) {
    if a + b == 0 {
        return f(prefix);
    }
    for (i, left) in [(0u8, a), (1, b)] {
        if left > 0 {
            prefix.push(i);
            orders(a - usize::from(i == 0), b - usize::from(i == 1), prefix, f);
            prefix.pop();
        }
    }
}

fn threads(base: &Base, a: usize, b: usize, most: usize) -> u64 {
    let total = [gates(a), gates(b)];
    let used = total.map(|t| t.min(most));
    let mut n = 0;
    orders(used[0] + 1, used[1] + 1, &mut Vec::new(), &mut |order| {
        n += 1;
        let turns = Turns { at: Mutex::new((0, [false; 2])), cv: Condvar::new(), order: order.to_vec() };
        std::thread::scope(|s| {
            for (me, k) in [a, b].into_iter().enumerate() {
                let (turns, total, used) = (&turns, total[me], used[me]);
                s.spawn(move || {
                    let me = me as u8;
                    let seen = Cell::new(0);
                    turns.wait(me);
                    base.run(
                        k,
                        &|| {
                            let i = seen.get();
                            seen.set(i + 1);
                            // `used` of the gates, evenly
                            if i < total && i * used / total != (i + 1) * used / total {
                                turns.pass(me, false);
                                turns.wait(me);
                            }
                        },
                        || format!("with \"{}\" on another thread, in the order {order:?}", ops::NAMES[[b, a][me as usize]]),
                    );
                    turns.pass(me, true);
                });
            }
        });
    });
    n
}

/// `b` inside `a` at every gate, and `c` inside that.
fn nested(base: &Base, a: usize, b: usize) -> u64 {
    let (ga, gb) = (gates(a), gates(b));
    let n = Cell::new(0);
    let mut inner: Vec<Option<(usize, usize)>> = vec![None];
    for c in 0..ops::count() {
        inner.extend((0..gb).filter(|j| gen::notable(*j, gb, 1)).map(|j| Some((c, j))));
    }
    for k in (0..ga).filter(|k| gen::notable(*k, ga, 3)) {
        for c in &inner {
            if c.is_some() && !gen::notable(k, ga, 1) {
                continue;
            }
            n.set(n.get() + 1);
            let how = || format!("\"{}\" at call {k} of \"{}\", inner {c:?}", ops::NAMES[b], ops::NAMES[a]);
            let seen = Cell::new(0);
            base.run(
                a,
                &|| {
                    seen.set(seen.get() + 1);
                    if seen.get() == k + 1 {
                        let seen = Cell::new(0);
                        base.run(
                            b,
                            &|| {
                                seen.set(seen.get() + 1);
                                match c {
                                    Some((c, j)) if seen.get() == j + 1 => base.run(*c, &none, how),
                                    _ => {}
                                }
                            },
                            how,
                        );
                    }
                },
                how,
            );
        }
    }
    n.get()
}

/// `a` is unwound at every gate; then every other use.
fn unwound(base: &Base, a: usize, b: usize) -> u64 {
    let g = gates(a);
    for k in (0..g).filter(|k| gen::notable(*k, g, 4)) {
        let seen = Cell::new(0);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            ops::run(a, &|| {
                seen.set(seen.get() + 1);
                if seen.get() == k + 1 {
                    panic!("gate");
                }
            })
        }));
        // One use catches its own panics
        let _ = r;
        base.run(b, &none, || format!("after \"{}\" was unwound at call {k}", ops::NAMES[a]));
        base.run(a, &none, || format!("after it was unwound at call {k} and \"{}\" ran", ops::NAMES[b]));
    }
    g as u64
}

fn child(args: &[String]) -> ! {
    unsafe { alarm(400) };
    std::panic::set_hook(Box::new(|_| {}));
    let n: Vec<usize> = args[1..].iter().map(|a| a.parse().unwrap()).collect();
    if args[0] == "say" {
        for t in texts() {
            println!("{}", hash_bytes(1, all_said(t).as_bytes()));
        }
        std::process::exit(0);
    }
    if args[0] == "b" {
        println!("{}", told(n[0], &none));
        std::process::exit(0);
    }
    let base = Base(std::env::var("JJMC_BASE").unwrap().split(',').map(|b| b.parse().unwrap()).collect());
    let done = match args[0].as_str() {
        "h" => {
            for (i, k) in n.iter().enumerate() {
                base.run(*k, &none, || format!("after the uses {:?}", n[..i].iter().map(|k| ops::NAMES[*k]).collect::<Vec<_>>()));
            }
            1
        }
        "p" => {
            for i in 0..n[1] {
                base.run(n[0], &none, || format!("after {i} times itself"));
            }
            base.run(n[2], &none, || format!("after {} times \"{}\"", n[1], ops::NAMES[n[0]]));
            base.run(n[0], &none, || format!("after {} times itself, then \"{}\"", n[1], ops::NAMES[n[2]]));
            1
        }
        "P" => {
            for i in 0..n[1] {
                base.run(n[0], &none, || format!("after {i} times itself"));
            }
            for k in 0..ops::count() {
                base.run(k, &none, || format!("after {} times \"{}\" and then {k} others", n[1], ops::NAMES[n[0]]));
            }
            1
        }
        "t" => threads(&base, n[0], n[1], n[2]),
        "r" => nested(&base, n[0], n[1]),
        "u" => unwound(&base, n[0], n[1]),
        // on a fresh thread
        "s" => std::thread::scope(|s| {
            s.spawn(|| base.run(n[0], &none, || "on a fresh thread".into()));
            1
        }),
        _ => unreachable!(),
    };
    println!("ok {done}");
    std::process::exit(0)
}

// ---- in the check ----

fn spawn(args: &[String]) -> Command {
    let mut c = Command::new(std::env::current_exe().expect("exe"));
    c.arg("--ops").args(args);
    c
}
fn base() -> &'static Vec<u64> {
    static BASE: OnceLock<Vec<u64>> = OnceLock::new();
    BASE.get_or_init(|| {
        (0..ops::count())
            .map(|k| {
                let out = spawn(&["b".into(), k.to_string()]).output().expect("spawn");
                // A use that does not even end counts as giving 0
                String::from_utf8_lossy(&out.stdout).trim().parse().unwrap_or(0)
            })
            .collect()
    })
}
fn base_text() -> &'static str {
    static TEXT: OnceLock<String> = OnceLock::new();
    TEXT.get_or_init(|| base().iter().map(u64::to_string).collect::<Vec<_>>().join(","))
}

/// Texts to read one after the other.
fn texts() -> &'static Vec<Vec<u8>> {
    static TEXTS: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    TEXTS.get_or_init(|| {
        let mut v: Vec<Vec<u8>> = Vec::new();
        let s = |n: usize, x: &str| x.repeat(n);
        for n in [1, 2, 64, 127, 128, 129, 200] {
            for (a, b) in [("[", "]"), ("{\"a\":", "}"), ("[1,", "]"), ("[{\"\":", "}]")] {
                v.push((s(n, a) + "0" + &s(n, b)).into_bytes());
                v.push(s(n, a).into_bytes());
                v.push((s(n, a) + "0" + &s(n - 1, b)).into_bytes());
            }
        }
        for n in [1, 7, 8, 16, 31, 64, 100, 255, 256, 300] {
            for x in ["7", "\"a\"", " ", "\u{e9}", "\\n"] {
                let r = s(n, x);
                v.push(r.clone().into_bytes());
                v.push(format!("[{r}]").into_bytes());
                v.push(format!("\"{r}\"").into_bytes());
                v.push(format!("{{\"{r}\":{r}").into_bytes());
                v.push(format!("[{}1]", s(n, &format!("{x},"))).into_bytes());
            }
        }
        let mut take = |f: Family, most: usize| {
            let mut all: Vec<Vec<u8>> = Vec::new();
            f.tasks.iter().for_each(|t| t(&mut |c| all.push(c.to_vec())));
            let step = all.len().div_ceil(most);
            v.extend(all.into_iter().step_by(step));
        };
        take(gen::token_trie(CFG, 4), 400);
        take(gen::words("", &gen::all_atoms(), 1, b"\"", b"\""), 200);
        take(gen::words("", &gen::all_atoms(), 1, b"{\"", b"\":1,\"k\":[2]}"), 200);
        take(gen::class_bytes(2), 300);
        gen::numbers(3).into_iter().for_each(|f| take(f, 150));
        v
    })
}
/// What every text says, read in a process of its own in the order of the list.
fn said() -> &'static Vec<u64> {
    static SAID: OnceLock<Vec<u64>> = OnceLock::new();
    SAID.get_or_init(|| {
        let out = spawn(&["say".into()]).output().expect("spawn");
        String::from_utf8_lossy(&out.stdout).lines().filter_map(|l| l.parse().ok()).collect()
    })
}
/// A text after another, in the same place.
fn after(n: &[u32], w: &mut W) {
    let (texts, said) = (texts(), said());
    if said.len() != texts.len() {
        return w.fail("ended", "reading all texts in a fresh process ended early");
    }
    thread_local! {
        static PLACE: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::with_capacity(4096));
    }
    PLACE.with(|p| {
        let p = &mut *p.borrow_mut();
        let mut before = 0;
        for i in n {
            let i = *i as usize;
            p.clear();
            p.extend_from_slice(&texts[i]);
            let got = all_said(p);
            w.traces += 1;
            w.edge(before, said[i]);
            before = mix(before, said[i]);
            w.state(before);
            if hash_bytes(1, got.as_bytes()) != said[i] {
                return w.fail("after", format!("after reading {:?}: {} says {got}", n.iter().map(|k| engine::show_bytes(&texts[*k as usize])).collect::<Vec<_>>(), engine::show_bytes(p)));
            }
        }
    });
}

const CFG: Cfg = Cfg { trailing: false, limit: Some(128), root_any: true };

fn all_said(doc: &[u8]) -> String {
    let mut o = String::new();
    let say = |o: &mut String, r: Result<String, justjson::Error>| {
        let _ = match r {
            Ok(t) => write!(o, "{t};"),
            Err(e) => write!(o, "{:?}@{};", e.kind(), e.offset()),
        };
    };
    say(&mut o, Parser::validate_json_bytes(doc).map(|k| format!("{k:?}")));
    say(&mut o, Value::from_json_bytes(doc).map(|v| v.to_json() + &v.to_json_pretty()));
    say(&mut o, Document::from_json_bytes(doc).map(|d| format!("{:?}", d.iter().collect::<Vec<_>>())));
    let mut t = Tokenizer::for_json_bytes(doc);
    for _ in 0..doc.len() + 2 {
        match t.next() {
            Some(r) => {
                match &r {
                    Ok(Token::Number(n)) => {
                        let _ = write!(o, "{:?} {:?} {:?}", n.as_f64().map(f64::to_bits), n.as_f32().map(f32::to_bits), n.as_i128());
                    }
                    Ok(Token::String(s)) => {
                        let _ = write!(o, "{} {} {} {:?}", s.decoded(), s.decode_if_needed().as_str(), s.escape_if_needed().as_str(), s.cmp(&JsonString::from("a\n")));
                    }
                    _ => {}
                }
                say(&mut o, r.map(|t| format!("{t:?}")))
            }
            None => break,
        }
        let _ = write!(o, "{} ", t.offset());
    }
    if let Ok(s) = std::str::from_utf8(doc) {
        say(&mut o, Value::from_json_with_config(s, util::config(&Cfg { trailing: true, limit: Some(2), root_any: false })).map(|v| v.to_json()));
        say(&mut o, JsonString::from_json(s).map(|s| format!("{} {}", s.decoded(), s.decoded_len())));
        say(&mut o, JsonNumber::from_json(s).map(|n| format!("{:?} {:?}", n.as_f64().map(f64::to_bits), n.as_u64())));
        let built = JsonString::from(s);
        let _ = write!(o, "{} {} {}", built.as_json(), built.len(), built == built.decode_if_needed().as_str());
    }
    o
}

/// The same text between other bytes and at other alignments.
fn surroundings(doc: &[u8], w: &mut W) {
    let want = all_said(&doc.to_vec());
    w.state(hash_bytes(7, want.as_bytes()));
    const FILL: [u8; 11] = *b" 1\"}],\\e:n\xff";
    let mut buf = Vec::new();
    // Over other texts of the same length, in the same place
    let alnum: Vec<usize> = (0..doc.len()).filter(|i| doc[*i].is_ascii_alphanumeric()).collect();
    let mut siblings: Vec<(usize, u8)> = [alnum.last(), alnum.first()].into_iter().flatten().map(|i| (*i, if doc[*i] == b'1' { b'2' } else { b'1' })).collect();
    siblings.push((doc.len() / 2, b'"'));
    buf.resize(doc.len() + 3, b' ');
    for (i, c) in siblings.into_iter().filter(|(i, _)| *i < doc.len()) {
        w.traces += 1;
        buf[3..].copy_from_slice(doc);
        buf[3 + i] = c;
        let before = all_said(&buf[3..]);
        buf[3..].copy_from_slice(doc);
        let got = all_said(&buf[3..]);
        if got != want {
            return w.fail("reused", format!("in a buffer that held the same with byte {i} as {c:#x} before: {got}, alone: {want}, before: {before}"));
        }
    }
    for (i, f) in FILL.iter().enumerate() {
        w.traces += 1;
        let at = 64 + (i * 3 + doc.len()) % 16;
        buf.clear();
        buf.resize(at, *f);
        buf.extend_from_slice(doc);
        buf.resize(at + doc.len() + 64, *f);
        w.edge(hash_bytes(7, want.as_bytes()), u64::from(*f));
        let got = all_said(&buf[at..at + doc.len()]);
        if got != want {
            return w.fail("surroundings", format!("between bytes {f:#x}, {at} bytes into a buffer: {got}, alone: {want}"));
        }
    }
}

fn ints(case: &[u8]) -> Vec<u32> {
    case.chunks_exact(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect()
}

fn judge(case: &[u8], w: &mut W) {
    let Some((&tag, rest)) = case.split_first() else { return };
    if tag == b'A' {
        return surroundings(rest, w);
    }
    let n = ints(rest);
    if tag == b'B' {
        return after(&n, w);
    }
    let mut args = vec![char::from(tag).to_string()];
    args.extend(n.iter().map(u32::to_string));
    let mut before = u64::from(tag);
    for k in &n {
        w.edge(before, u64::from(*k));
        before = mix(before, u64::from(*k));
        w.state(before);
    }
    let mut c = match tag {
        b'e' => {
            // other surroundings of the process
            args[0] = "h".into();
            let mut c = spawn(&args);
            c.env_clear().current_dir("/");
            c
        }
        _ => spawn(&args),
    };
    let Ok(out) = c.env("JJMC_BASE", base_text()).output() else { return w.fail("spawn", "no process") };
    let said = String::from_utf8_lossy(&out.stdout).into_owned();
    match said.trim().strip_prefix("ok ").and_then(|n| n.parse::<u64>().ok()) {
        Some(done) => w.traces += done,
        None if said.is_empty() => w.fail("ended", format!("ended with {}", out.status)),
        None => w.fail("differs", said.trim().to_string()),
    }
}

fn show(case: &[u8]) -> String {
    match case.split_first() {
        Some((b'A', rest)) => engine::show_bytes(rest),
        Some((t, rest)) => format!("{}{:?}", char::from(*t), ints(rest)),
        None => String::new(),
    }
}

fn lists(name: &str, tag: u8, tasks: Vec<Vec<Vec<u32>>>) -> Family {
    family(
        name,
        tasks
            .into_iter()
            .map(|list| {
                task(move |sink| {
                    for l in &list {
                        let mut case = vec![tag];
                        l.iter().for_each(|n| case.extend_from_slice(&n.to_le_bytes()));
                        sink(&case);
                    }
                })
            })
            .collect(),
    )
}

fn families(tier: Tier) -> Vec<Family> {
    let q = tier == Tier::Quick;
    let m = ops::count() as u32;
    let pairs = |f: &dyn Fn(u32, u32) -> Vec<Vec<u32>>| -> Vec<Vec<Vec<u32>>> { (0..m).flat_map(|a| (0..m).map(move |b| (a, b))).map(|(a, b)| f(a, b)).collect() };
    let mut v = vec![
        lists("a cleared environment", b'e', vec![(0..m).map(|a| vec![a]).collect()]),
        lists("a fresh thread", b's', vec![(0..m).map(|a| vec![a]).collect()]),
        lists("histories of three uses", b'h', pairs(&|a, b| (0..m).map(|c| vec![a, b, c]).collect())),
        lists("a use many times, then another", b'p', pairs(&|a, b| {
            let mut n: Vec<u32> = vec![3, 8, 17, 127, 128, 130, 255, 256];
            if !q {
                n.extend([10, 33, 64, 65, 129, 257, 512, 1025]);
            }
            n.into_iter().map(|n| vec![a, n, b]).collect()
        })),
        lists("a use very many times, then all", b'P', (0..m).map(|a| (if q { vec![66_000] } else { vec![5000, 66_000, 200_000] }).into_iter().map(|n| vec![a, n]).collect()).collect()),
        lists("two uses on two threads", b't', pairs(&|a, b| if a <= b { vec![vec![a, b, tier.pick(5, 6)]] } else { vec![] })),
        lists("a use inside a use", b'r', pairs(&|a, b| vec![vec![a, b]])),
        lists("a use unwound, then others", b'u', pairs(&|a, b| vec![vec![a, b]])),
    ];
    if !q {
        let few: Vec<u32> = (0..m).step_by(3).collect();
        v.push(lists("histories of four uses", b'h', pairs(&|a, b| few.iter().flat_map(|c| few.iter().map(move |d| vec![a, b, *c, *d])).collect())));
    }
    let m = texts().len() as u32;
    v.push(lists("a text after another, in the same place", b'B', (0..m).map(|a| (0..m).map(|b| vec![a, b]).collect()).collect()));
    let lengths = task(|sink| {
        for n in 1..48 {
            let s = |x: &str| x.repeat(n);
            for doc in [s("7"), format!("0.{}", s("3")), format!("-1e{}", s("1")), format!("\"{}\"", s("a")), format!("\"{}\\u0041\"", s("b")), format!("\"{}\t\"", s("c")), format!("\"\u{e9}{}\"", s("d")), format!("[1,{}2]", s(" ")), format!("{{\"{}\":true}}", s("k")), format!("[tru{}]", s("e"))] {
                sink(doc.as_bytes());
                sink(format!("[{doc},null]").as_bytes());
            }
        }
    });
    v.extend(
        [
            family("literals of all lengths to 48", vec![lengths]),
            gen::cover(CFG, 2, false),
            gen::token_trie(CFG, tier.pick(6, 8)),
            gen::class_bytes(3),
            gen::trees(tier.pick(4, 5), 3, true, 2),
            gen::words("string atoms", &gen::all_atoms(), 2, b"\"", b"\""),
            gen::shorter(gen::pumps(tier), tier.pick(300, 5_000)),
            gen::mutations(false),
        ]
        .into_iter()
        .chain(gen::numbers(tier.pick(4, 5)))
        .map(|f| {
            let name = format!("between other bytes: {}", f.name);
            Family { name, ..gen::tagged(f, b'A') }
        }),
    );
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(String::as_str) == Some("--ops") {
        child(&args[2..]);
    }
    engine::main(Check {
        id: "C32",
        level: Level::ModelChecking,
        rule: "state = sequence of uses so far (history), or what a text says; transition = one more use, or one surrounding; each trace is one history, one schedule of two threads, one nesting or one surrounding run on the implementation, its transcripts compared with those of the same uses in fresh processes",
        assumptions: &[
            "Threads change over at calls out of the library (delegate, sink, hasher) and between calls only, one running at a time",
            "Uses are the 34 listed in the harness",
        ],
        families,
        judge,
        stack_mb: 0,
        show,
    })
}
