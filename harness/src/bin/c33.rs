//! C33: work grows in proportion to what is read and written.
//!
//! Every construct is repeated 256 and 4096 (thorough: 2048 and 16384 too) times and every operation runs
//! on it under callgrind, which counts the instructions executed. The count is exact and does not
//! depend on the machine or its load.
use jjmc::engine::{self, hash_bytes, mix, Check, Family, Level, Tier, W};
use jjmc::gen::{family, task};
use justjson::doc::{Document, HeaplessDocument, Node};
use justjson::parser::{ParseConfig, Parser, Tokenizer};
use justjson::{JsonNumber, JsonString, Value};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::hint::black_box;
use std::process::Command;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::OnceLock;
use std::time::Instant;

// ---- under callgrind ----

/// A request to callgrind; without callgrind, nothing.
fn request(req: usize) {
    #[cfg(target_arch = "x86_64")]
    unsafe {
        let args = [req, 0, 0, 0, 0, 0];
        let mut r: usize = 0;
        std::arch::asm!("rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx", in("rax") args.as_ptr(), inout("rdx") r);
        black_box(r);
    }
}
const CT: usize = (b'C' as usize) << 24 | (b'T' as usize) << 16;

/// Counts the instructions of `f`, which says how much it wrote.
fn measure(name: &str, read: usize, f: impl FnOnce() -> usize) {
    request(CT + 1);
    let wrote = black_box(f());
    request(CT);
    println!("{name} {}", read + wrote);
}

#[derive(Default)]
struct Sink(usize);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}
#[derive(Default)]
struct Sum(u64);
impl Hasher for Sum {
    fn write(&mut self, b: &[u8]) {
        self.0 = self.0.wrapping_add(b.len() as u64);
    }
    fn finish(&self) -> u64 {
        self.0
    }
}

fn strings<'v, 'a>(v: &'v Value<'a>, s: &mut Vec<&'v JsonString<'a>>, n: &mut Vec<&'v JsonNumber<'a>>) {
    match v {
        Value::String(x) => s.push(x),
        Value::Number(x) => n.push(x),
        Value::Array(l) => l.iter().for_each(|v| strings(v, s, n)),
        Value::Object(o) => o.iter().for_each(|e| {
            s.push(&e.key);
            strings(&e.value, s, n);
        }),
        _ => {}
    }
}

fn all(doc: &[u8]) {
    let c = ParseConfig::new().without_recursion_limit();
    let text = std::str::from_utf8(doc).ok();
    let n = doc.len();
    measure("validate bytes", n, || usize::from(Parser::validate_json_bytes_with_config(doc, c).is_ok()));
    measure("tokens of bytes", n, || Tokenizer::for_json_bytes(doc).map_while(Result::ok).count());
    measure("peeked tokens", n, || {
        let mut t = Tokenizer::for_json_bytes(doc);
        let mut n = 0;
        while t.peek().is_some() {
            t.peek();
            if t.next_or_eof().is_err() {
                break;
            }
            n += t.offset() & 1;
        }
        n
    });
    let trailing = c.allowing_trailing_commas();
    measure("validate with trailing commas", n, || usize::from(Parser::validate_json_bytes_with_config(doc, trailing).is_ok()));
    let strict = ParseConfig::strict().with_recursion_limit(usize::MAX);
    measure("validate strictly", n, || usize::from(Parser::validate_json_bytes_with_config(doc, strict).is_ok()));
    measure("value within the limit", n, || usize::from(Value::from_json_bytes(doc).is_ok()));
    measure("fixed document", n, || HeaplessDocument::<200>::from_json_bytes_with_config(doc, c).map_or(0, |d| d.iter().count() & 1));
    if let Some(text) = text {
        measure("validate text", n, || usize::from(Parser::validate_json_with_config(text, c).is_ok()));
        measure("tokens of text", n, || Tokenizer::for_json(text).map_while(Result::ok).count());
        measure("lone string", n, || usize::from(JsonString::from_json(text).is_ok()));
        measure("lone number", n, || usize::from(JsonNumber::from_json(text).is_ok()));
        measure("string from text", 2 * n, || JsonString::from(text).len());
        measure("string from owned text", 2 * n, || JsonString::from(text.to_string()).len());
        let built = JsonString::from(text);
        measure("encode", n, || built.as_json().count());
        measure("encoded", n, || built.escape_if_needed().as_str().len());
        measure("show encoded", n, || built.as_json().to_string().len());
        measure("built string = text", n, || usize::from(built == text) + usize::from(built == JsonString::from(text)));
    }
    let mut value = None;
    measure("value", n, || {
        value = Some(Value::from_json_bytes_with_config(doc, c));
        0
    });
    let mut document = None;
    measure("document", n, || {
        document = Some(Document::from_json_bytes_with_config(doc, c));
        0
    });
    let (value, document) = match (value, document) {
        (Some(Ok(v)), Some(Ok(d))) => (v, d),
        (Some(Err(e)), _) => {
            measure("show error", n, || e.to_string().len());
            return;
        }
        _ => return,
    };
    measure("iterate", n, || document.iter().count() & 1);
    measure("nodes", n, || document.iter().filter(|n| matches!(n, Node::Null)).count() & 1);
    measure("skip all", n, || {
        let mut i = document.iter();
        i.skip_next_value();
        i.count()
    });
    measure("skip each", n, || {
        let mut i = document.iter();
        i.next();
        while i.size_hint().0 > 0 {
            i.skip_next_value();
        }
        0
    });
    measure("read each", n, || {
        let mut i = document.iter();
        i.next();
        let mut n = 0;
        while let Some(v) = i.next_value() {
            n ^= usize::from(v.is_null());
        }
        n
    });
    measure("compare documents", n, || usize::from(document == document));
    measure("compact", n, || value.to_json().len());
    measure("compact to a sink", n, || {
        let mut s = Sink::default();
        let _ = value.write_json_to(&mut s);
        s.0
    });
    measure("display", n, || {
        let mut s = Sink::default();
        let _ = write!(s, "{value}");
        s.0
    });
    measure("pretty", n, || value.to_json_pretty_custom("\t", "\r\n").len());
    measure("pretty display", n, || {
        let mut s = Sink::default();
        let _ = write!(s, "{value:#}");
        s.0
    });
    let again = Value::from_json_bytes_with_config(doc, c).unwrap();
    measure("compare values", n, || usize::from(value == again) + usize::from(value != again));
    measure("look up", n, || usize::from(value.get("no such key").is_some()) + usize::from(value.get("k7").is_some()) + usize::from(value.get_index(usize::MAX).is_some()));
    let (mut s, mut d) = (Vec::new(), Vec::new());
    strings(&value, &mut s, &mut d);
    measure("decode", n, || s.iter().map(|s| s.decoded().map(char::len_utf8).sum::<usize>()).sum());
    let texts: Vec<String> = s.iter().map(|s| s.decoded().collect()).collect();
    measure("decoded", n, || s.iter().map(|s| s.decode_if_needed().as_str().len()).sum());
    measure("show strings", n, || s.iter().map(|s| s.to_string().len()).sum());
    measure("re-encode", n, || s.iter().map(|s| s.as_json().map(char::len_utf8).sum::<usize>()).sum());
    measure("re-encoded", n, || s.iter().map(|s| s.escape_if_needed().as_str().len()).sum());
    measure("lengths", n, || s.iter().map(|s| (s.len() ^ s.decoded_len() ^ usize::from(s.is_empty()) ^ usize::from(s.as_str().is_some())) & 1).sum());
    measure("hash", n, || {
        let mut h = Sum::default();
        s.iter().for_each(|s| s.hash(&mut h));
        h.finish() as usize & 1
    });
    let copies: Vec<JsonString<'_>> = s.iter().map(|s| (*s).clone()).collect();
    let built: Vec<JsonString<'_>> = texts.iter().map(|t| JsonString::from(t.as_str())).collect();
    measure("string = copy", n, || s.iter().zip(&copies).filter(|(a, b)| **a == *b).count());
    measure("string = built", n, || s.iter().zip(&built).filter(|(a, b)| **a == *b && *b == **a).count());
    measure("string = text", n, || s.iter().zip(&texts).filter(|(a, b)| ***a == ***b).count());
    measure("string <=> copy", n, || s.iter().zip(&copies).filter(|(a, b)| (**a).cmp(b).is_eq()).count());
    measure("string <=> built", n, || s.iter().zip(&built).filter(|(a, b)| (**a).cmp(b).is_eq() && (*b).cmp(a).is_eq()).count());
    measure("string <=> text", n, || s.iter().zip(&texts).filter(|(a, b)| (**a).partial_cmp(b.as_str()).is_some()).count());
    // Strings that differ only at their very end, or end earlier, however they are spelled.
    let sources: Vec<[String; 3]> = s.iter().filter_map(|s| s.as_json_str()).map(|s| s.as_str()).map(|s| ["", "x", "y"].map(|end| format!("\"{s}{end}\""))).collect();
    let near: Vec<[JsonString<'_>; 3]> = sources.iter().map(|s| [0, 1, 2].map(|i| JsonString::from_json(&s[i]).unwrap())).collect();
    let near_texts: Vec<[String; 3]> = texts.iter().map(|t| ["", "x", "y"].map(|end| format!("{t}{end}"))).collect();
    let near_built: Vec<[JsonString<'_>; 3]> = near_texts.iter().map(|t| [0, 1, 2].map(|i| JsonString::from(t[i].as_str()))).collect();
    for (name, a, b) in [("later end", 0, 1), ("other end", 1, 2)] {
        measure(&format!("string = {name}"), n, || near.iter().filter(|s| s[a] == s[b] || s[b] == s[a]).count());
        measure(&format!("string = built {name}"), n, || near.iter().zip(&near_built).filter(|(s, t)| s[a] == t[b] || t[a] == s[b]).count());
        measure(&format!("string = text {name}"), n, || near.iter().zip(&near_texts).filter(|(s, t)| s[a] == *t[b] || s[b] == *t[a]).count());
        measure(&format!("string < {name}"), n, || near.iter().filter(|s| s[b] < s[a]).count());
        measure(&format!("string < built {name}"), n, || near.iter().zip(&near_built).filter(|(s, t)| s[b] < t[a] || t[b] < s[a]).count());
        measure(&format!("string < text {name}"), n, || near.iter().zip(&near_texts).filter(|(s, t)| s[b] < *t[a]).count());
    }
    measure("neighbours", n, || s.windows(2).filter(|w| w[0] == w[1] || w[0] < w[1]).count());
    measure("integers", n, || d.iter().filter(|d| d.as_u64().is_some() || d.as_i128().is_some()).count());
    measure("small integers", n, || d.iter().filter(|d| d.as_u8().is_some() || d.as_i8().is_some() || d.as_u16().is_some() || d.as_i16().is_some()).count());
    measure("other integers", n, || d.iter().filter(|d| d.as_u32().is_some() || d.as_i32().is_some() || d.as_i64().is_some() || d.as_u128().is_some() || d.as_usize().is_some() || d.as_isize().is_some()).count());
    measure("floats", n, || d.iter().filter(|d| d.as_f64().is_some() && d.as_f32().is_some()).count());
    measure("clone", n, || document.iter().map(|n| n.clone()).count());
    measure("collect strings", n, || {
        let o: justjson::Object<'_> = s.iter().map(|s| ((*s).clone(), Value::from((*s).clone()))).collect();
        o.len() & 1
    });
    measure("convert", n, || usize::from(Value::from(document).is_null()));
    measure("drop", n, || {
        drop(value);
        0
    });
}
// ---- constructs ----

type Make = Box<dyn Fn(usize) -> String + Send + Sync>;
struct Construct {
    name: String,
    make: Make,
}

fn constructs(tier: Tier) -> &'static Vec<Construct> {
    static ALL: OnceLock<Vec<Construct>> = OnceLock::new();
    ALL.get_or_init(|| {
        let mut v: Vec<Construct> = Vec::new();
        let mut bodies: Vec<(String, bool, Make)> = Vec::new();
        for atom in ["a", "\\n", "\\u0041", "\u{e9}", "\u{25ef}", "\u{1f639}", "\\ud83d\\ude39", "a\\\"", "\\\\", " ", "a\u{e9}", "abcdefg\\t", "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz\\/"] {
            bodies.push((format!("\"{atom}...\""), true, Box::new(move |n| format!("\"{}\"", atom.repeat(n)))));
        }
        for (a, d, b) in [("", "7", ""), ("-", "1", ""), ("0.", "3", ""), ("1.", "0", "1"), ("1e", "0", "1"), ("5E-", "9", ""), ("1", "0", "e-5")] {
            bodies.push((format!("{a}{d}...{b}"), false, Box::new(move |n| a.to_string() + &d.repeat(n) + b)));
        }
        for w in [" ", "\n", "\r", "\t", "\r\n", "\r\n\t "] {
            bodies.push(("[ ... ]".into(), false, Box::new(move |n| format!("[{}]", w.repeat(n)))));
            bodies.push(("1 ... ,".into(), false, Box::new(move |n| format!("[1{},2]", w.repeat(n)))));
            bodies.push(("{k ... :".into(), false, Box::new(move |n| format!("{{\"k\"{}:{}2}}", w.repeat(n), w.repeat(n)))));
        }
        for e in ["0", "-1.5e3", "[]", "{}", "\"\"", "null", "true", "\"word\"", "\"\\u00e9\\n\"", "[[]]", "{\"a\":{}}", "{\"key\":[1,\"x\"]}", " 1 ", "\n{ }"] {
            bodies.push((format!("[{e},...]"), false, Box::new(move |n| format!("[{}{e}]", format!("{e},").repeat(n)))));
            bodies.push((format!("{{\"k\":{e},...}}"), false, Box::new(move |n| format!("{{{}\"k\":{e}}}", format!("\"k\":{e},").repeat(n)))));
        }
        for e in ["0", "[]", "\"k\""] {
            bodies.push((format!("{{\"ki\":{e},...}}"), false, Box::new(move |n| format!("{{{}\"k\":{e}}}", (0..n).map(|i| format!("\"k{i}\":{e},")).collect::<String>()))));
            bodies.push((format!("{{\"\\u006bi\":{e},...}}"), false, Box::new(move |n| format!("{{{}\"k\":{e}}}", (0..n).map(|i| format!("\"\\u006b{i}\":{e},")).collect::<String>()))));
        }
        for (a, m, b) in [("[", "", "]"), ("{\"a\":", "0", "}"), ("[{\"a\":", "[]", "}]"), ("[0,", "{}", "]"), ("[[],", "\"\"", "]"), ("{\"a\":[", "", "],\"b\":1}"), ("{\"b\":{},\"a\":", "1", ",\"c\":[2]}")] {
            // Nests are shorter: what is printed prettily grows with their square.
            bodies.push((format!("{a}...{m}...{b}"), false, Box::new(move |n| a.repeat(depth(n)) + m + &b.repeat(depth(n)))));
        }
        // Two constructs, both repeated, one after the other.
        let mut twice: Vec<(String, Make)> = Vec::new();
        for (a, m, b) in [("1", ".", "2"), ("3", "e", "4"), ("5", "E-", "6"), ("0", "", "7")] {
            twice.push((format!("-{a}...{m}{b}..."), Box::new(move |n| format!("-{}{m}{}", a.repeat(n), b.repeat(n)))));
        }
        twice.push(("1...2...e3...".into(), Box::new(|n| format!("{}.{}e{}", "1".repeat(n), "2".repeat(n), "3".repeat(n)))));
        let atoms = ["a", "\\n", "\\u00e9", "\u{e9}", "\\ud83d\\ude39", "\u{1f639}", "\\\\"];
        let elements = ["0", "[]", "{\"a\":1}", "\"w\"", "\"\\n\"", "[0]", "{\"a\":{}}", "[[],\"\\t\"]"];
        for (i, a) in atoms.into_iter().enumerate() {
            for b in atoms.into_iter().take(i).chain(atoms.into_iter().skip(i + 1)) {
                twice.push((format!("\"{a}...{b}...\""), Box::new(move |n| format!("\"{}{}\"", a.repeat(n), b.repeat(n)))));
            }
            twice.push((format!("[\"{a}...\",0...]"), Box::new(move |n| format!("[\"{}\"{}]", a.repeat(n), ",0".repeat(n)))));
            twice.push((format!("{{\"{a}...\":0,\"b\":0...}}"), Box::new(move |n| format!("{{\"{}\":0{}}}", a.repeat(n), ",\"b\":0".repeat(n)))));
        }
        for (i, a) in elements.into_iter().enumerate() {
            for b in elements.into_iter().take(i).chain(elements.into_iter().skip(i + 1)) {
                twice.push((format!("[{a}...{b}...]"), Box::new(move |n| format!("[{}{}0]", format!("{a},").repeat(n), format!("{b},").repeat(n)))));
                if tier == Tier::Thorough {
                    twice.push((format!("{{\"k\":{a}...\"l\":{b}...}}"), Box::new(move |n| format!("{{{}{}\"m\":0}}", format!("\"k\":{a},").repeat(n), format!("\"l\":{b},").repeat(n)))));
                }
            }
        }
        for (a, m, b) in [("[", "", "]"), ("{\"a\":", "0", "}"), ("[0,", "{}", "]"), ("{\"b\":{},\"a\":", "1", ",\"c\":[2]}")] {
            let deep = move |n: usize, m: &str, b: &str| format!("{}{m}{}", a.repeat(depth(n)), b.repeat(depth(n)));
            twice.push((format!("[{a}...{b}...,0...]"), Box::new(move |n| format!("[{}{}]", deep(n, m, b), ",0".repeat(n)))));
            twice.push((format!("[0...,{a}...{b}...]"), Box::new(move |n| format!("[{}{}]", "0,".repeat(n), deep(n, m, b)))));
            twice.push((format!("{a}...0...{b}..."), Box::new(move |n| deep(n, &format!("[{}0]", "0,".repeat(depth(n))), b))));
            for (end, none) in [("", ""), ("x", ""), ("\"", ""), ("\"\\n\u{e9}\\q\"", ""), ("0 0", b), ("0", "}"), ("[]", "]"), ("-", b), (",", b)] {
                twice.push((format!("{a}...{end}{none}..."), Box::new(move |n| deep(n, end, none))));
                twice.push((format!("{a}...,...{end}{none}"), Box::new(move |n| format!("{}[{}{end}{none}", a.repeat(depth(n)), "[],".repeat(n)))));
            }
        }
        v.extend(twice.into_iter().map(|(name, make)| Construct { name, make }));
        let all: Vec<(String, bool, std::sync::Arc<Make>)> = bodies.into_iter().map(|(n, s, m)| (n, s, std::sync::Arc::new(m))).collect();
        for (name, string, make) in &all {
            let mut places = vec![("", ""), ("{\"k\":[", "],\"l\":0}"), ("", "x"), ("[{\"z\":", ",}]")];
            if *string {
                places.extend([("{\"q\":1,", ":[],\"k7\":2}")]);
            }
            if tier == Tier::Thorough {
                places.extend([("[0,", ",1]"), ("[", ""), ("{", ":0}"), (" ", " "), ("[[[[[[[[", "]]]]]]]]"), ("{\"k\":{\"l\":", "}}"), ("[", " "), ("\"", "\""), ("[", ",\"\\q\"]")]);
            }
            for (a, b) in places {
                let make = make.clone();
                v.push(Construct { name: format!("{a}{name}{b}"), make: Box::new(move |n| format!("{a}{}{b}", make(n))) });
            }
        }
        // Many of a middling size
        for (name, _, make) in &all {
            let make = make.clone();
            v.push(Construct {
                name: format!("[{name},...] of 32"),
                make: Box::new(move |n| {
                    let one = make(32);
                    format!("[{}{one}]", format!("{one},").repeat(n / 32))
                }),
            });
        }
        v
    })
}
/// Constructs that are measured in one process.
fn batch(tier: Tier, k: usize) -> std::ops::Range<usize> {
    k * BATCH..((k + 1) * BATCH).min(constructs(tier).len())
}
const BATCH: usize = 4;
/// Seconds a batch may take; it takes about five.
const LIMIT: u64 = 150;
fn sizes(tier: Tier) -> &'static [usize] {
    tier.pick(&[256, 4096], &[256, 2048, 16_384])
}
fn depth(n: usize) -> usize {
    (n / 8).min(1024)
}

fn child(tier: Tier, k: usize) -> ! {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(1 << 29)
            .spawn_scoped(s, || {
                for c in &constructs(tier)[batch(tier, k)] {
                    println!("-");
                    for &n in sizes(tier) {
                        all((c.make)(n).as_bytes());
                    }
                }
            })
            .unwrap();
    });
    std::process::exit(0)
}

// ---- in the check ----

/// For every operation, (instructions, bytes read and written) by size.
type Counts = Vec<(String, Vec<(u64, u64)>)>;

/// What `--measure k` counted, construct by construct.
fn counts(tier: Tier, k: usize) -> Result<Vec<Counts>, String> {
    let root = std::env::var("JJMC_ROOT").unwrap_or_else(|_| "/verif".into());
    let dir = format!("{root}/out/C33/tmp-{}", std::process::id());
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let file = format!("{dir}/{k}");
    // To files, so that the child never waits for this process to read.
    let output = std::fs::File::create(format!("{file}.out")).map_err(|e| e.to_string())?;
    let errors = std::fs::File::create(format!("{file}.err")).map_err(|e| e.to_string())?;
    let mut valgrind = Command::new("valgrind")
        .args(["--tool=callgrind", "--combine-dumps=yes", "--vgdb=no", &format!("--callgrind-out-file={file}")])
        .arg(std::env::current_exe().map_err(|e| e.to_string())?)
        .args(["--measure", &k.to_string()])
        .env("VERIF_TIER", tier.pick("quick", "thorough"))
        .stdin(std::process::Stdio::null())
        .stdout(output)
        .stderr(errors)
        .spawn()
        .map_err(|e| e.to_string())?;
    let start = Instant::now();
    let status = loop {
        match valgrind.try_wait().map_err(|e| e.to_string())? {
            Some(s) => break Some(s),
            None if start.elapsed().as_secs() > tier.pick(LIMIT, 2 * LIMIT) => {
                let _ = valgrind.kill();
                let _ = valgrind.wait();
                break None;
            }
            None => std::thread::sleep(std::time::Duration::from_millis(10)),
        }
    };
    let [text, output, errors] = ["", ".out", ".err"].map(|e| std::fs::read(format!("{file}{e}")).map_or(String::new(), |b| String::from_utf8_lossy(&b).into_owned()));
    let _ = ["", ".out", ".err"].map(|e| std::fs::remove_file(format!("{file}{e}")));
    let _ = std::fs::remove_dir(&dir);
    match status {
        None => return Err(format!("did not end within {} s; the last operation to end was {:?}", tier.pick(LIMIT, 2 * LIMIT), output.lines().last().unwrap_or(""))),
        Some(s) if !s.success() => return Err(format!("ended with {s}: {}", errors.lines().last().unwrap_or(""))),
        _ => {}
    }
    let mut totals = text.lines().filter_map(|l| l.strip_prefix("totals: ")).map(|t| t.trim().parse::<u64>().unwrap_or(0));
    let mut all: Vec<Counts> = Vec::new();
    for line in output.lines() {
        if line == "-" {
            all.push(Vec::new());
        } else if let (Some((name, bytes)), Some(list)) = (line.rsplit_once(' '), all.last_mut()) {
            let (Some(t), Ok(b)) = (totals.next(), bytes.parse()) else { return Err("counts are missing".into()) };
            match list.iter_mut().find(|(n, _)| n == name) {
                Some((_, l)) => l.push((t, b)),
                None => list.push((name.to_string(), vec![(t, b)])),
            }
        }
    }
    Ok(all)
}

fn judge(case: &[u8], w: &mut W) {
    let Ok(k) = case.try_into().map(u32::from_le_bytes) else { return };
    let k = k as usize;
    let Some(cs) = constructs(w.tier).get(batch(w.tier, k)) else { return };
    // What makes one construct slow makes many slow: one is enough.
    if FOUND.load(Ordering::Relaxed) {
        return;
    }
    match counts(w.tier, k) {
        Ok(all) if all.len() == cs.len() => {
            for (c, list) in cs.iter().zip(all) {
                one(c, list, w);
            }
        }
        Ok(_) => w.fail("ended", format!("{}: nothing was counted", show(case))),
        Err(e) => w.fail("ended", format!("{}: {e}", show(case))),
    }
    if !w.found.is_empty() {
        FOUND.store(true, Ordering::Relaxed);
    }
}
static FOUND: AtomicBool = AtomicBool::new(false);

fn one(c: &Construct, list: Counts, w: &mut W) {
    for (name, l) in list {
        let id = mix(hash_bytes(0, c.name.as_bytes()), hash_bytes(1, name.as_bytes()));
        w.state(id);
        for (i, (t, _)) in l.iter().enumerate() {
            w.edge(id, i as u64);
            w.traces += 1;
            w.note("instructions", *t);
        }
        let (Some(a), Some(b)) = (l.first(), l.last()) else { continue };
        if l.len() != sizes(w.tier).len() {
            w.fail("verdict", format!("\"{name}\" of {} is possible at {} of {} sizes", c.name, l.len(), sizes(w.tier).len()));
        }
        // Instructions per byte must not grow with the size.
        if b.0 > 4 * b.1 && b.0 as f64 / b.1 as f64 > GROWTH * a.0.max(400) as f64 / a.1 as f64 {
            w.fail("growth", format!("\"{name}\" of {}: {:?} instructions for {:?} bytes read and written", c.name, l.iter().map(|x| x.0).collect::<Vec<_>>(), l.iter().map(|x| x.1).collect::<Vec<_>>()));
        }
    }
}
const GROWTH: f64 = 2.0;

fn show(case: &[u8]) -> String {
    let k = case.try_into().map_or(u32::MAX, u32::from_le_bytes);
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
    constructs(tier).get(batch(tier, k as usize)).map_or(String::new(), |cs| cs.iter().map(|c| c.name.as_str()).collect::<Vec<_>>().join("   "))
}

fn families(tier: Tier) -> Vec<Family> {
    let n = constructs(tier).len().div_ceil(BATCH) as u32;
    vec![family("constructs repeated", (0..n).map(|k| task(move |sink| sink(&k.to_le_bytes()))).collect())]
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
    if args.get(1).map(String::as_str) == Some("--measure") {
        child(tier, args[2].parse().unwrap());
    }
    if args.len() == 1 && !Command::new("valgrind").args(["--tool=callgrind", "--callgrind-out-file=/dev/null", "true"]).output().is_ok_and(|o| o.status.success()) {
        eprintln!("C33: valgrind does not run here");
        std::process::exit(2);
    }
    engine::STALL.store(3 * LIMIT, Ordering::Relaxed);
    engine::main(Check {
        id: "C33",
        level: Level::ModelChecking,
        rule: "state = (construct, operation); transition = one size; each trace is one operation on one construct at one size, executed under callgrind, its instructions counted (notes: instructions) and set against the bytes read and written",
        assumptions: &["In proportion means: at most twice the instructions per byte (read and written) at the largest size of what they are at the smallest"],
        families,
        judge,
        stack_mb: 0,
        show,
    })
}
