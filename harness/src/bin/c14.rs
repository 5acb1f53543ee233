//! C14: a failing output sink stops printing and surfaces its error.
use jjmc::engine::{self, mix, Check, Family, Level, Tier, W};
use jjmc::{gen, rp};
use justjson::parser::ParseConfig;
use justjson::{Entry, JsonString, Object, Value};
use std::fmt::{self, Write};

/// Fails at one write (counted over write_str and write_char), accepts all others.
struct Sink {
    out: String,
    writes: usize,
    fail_at: usize,
    after_failure: usize,
    /// refuses writes that do not fit
    capacity: usize,
    failed: bool,
}
impl Sink {
    fn new(fail_at: usize, capacity: usize) -> Sink {
        Sink { out: String::new(), writes: 0, fail_at, after_failure: 0, capacity, failed: false }
    }
    fn take(&mut self, s: &str) -> fmt::Result {
        let n = self.writes;
        self.writes += 1;
        if self.failed {
            self.after_failure += 1;
        }
        if n == self.fail_at || self.out.len() + s.len() > self.capacity {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.out.push_str(s);
        Ok(())
    }
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.take(s)
    }
    fn write_char(&mut self, c: char) -> fmt::Result {
        self.take(c.encode_utf8(&mut [0; 4]))
    }
}

const FORMS: usize = 7;
fn print(v: &Value<'_>, form: usize, s: &mut Sink) -> fmt::Result {
    match form {
        0 => v.write_json_to(s),
        1 => v.pretty_write_json_to(s),
        2 => v.pretty_write_json_to_custom("\t", "\r\n", s),
        3 => v.pretty_write_json_to_custom("", "", s),
        4 => write!(s, "{v}"),
        5 => write!(s, "{v:#}"),
        _ => v.pretty_write_json_to_custom(" ", "\n", s),
    }
}

fn faults(w: &mut W, case: u64, v: &Value<'_>) {
    for form in 0..FORMS {
        let mut s = Sink::new(usize::MAX, usize::MAX);
        let r = print(v, form, &mut s);
        w.evals += 1;
        w.check(r.is_ok(), "spurious-error", || format!("form {form}: an accepting sink gives {r:?}"));
        let (full, writes) = (s.out, s.writes);
        // What an accepting sink receives is the complete output.
        let whole = match form {
            0 | 4 => v.to_json(),
            1 | 5 => v.to_json_pretty(),
            2 => v.to_json_pretty_custom("\t", "\r\n"),
            3 => v.to_json_pretty_custom("", ""),
            _ => v.to_json_pretty_custom(" ", "\n"),
        };
        w.check(full == whole, "complete", || format!("form {form}: wrote {full:?}, complete output {whole:?}"));
        let judge = |w: &mut W, k: usize, how: &str, mut s: Sink| {
            let r = print(v, form, &mut s);
            w.evals += 1;
            w.nontrivial.insert(mix(mix(case, form as u64), mix(k as u64, how.len() as u64)));
            w.check(s.failed, "not-reached", || format!("form {form}: {how} {k} was not reached"));
            w.check(r.is_err(), "error-swallowed", || format!("form {form}: {how} {k} of {writes} failed, printing returned Ok after {:?}", s.out));
            w.check(s.after_failure == 0, "write-after-error", || {
                format!("form {form}: {how} {k} of {writes} failed, {} more writes were made: {:?}", s.after_failure, s.out)
            });
            w.check(full.starts_with(&s.out), "prefix", || format!("form {form}: {how} {k}: {:?} is not a prefix of {full:?}", s.out));
        };
        // In long output: near both ends and around powers of two.
        for k in (0..writes).filter(|k| writes <= 150 || gen::notable(*k, writes, 6)) {
            judge(w, k, "write", Sink::new(k, usize::MAX));
        }
        // A sink that is full: every capacity below the complete length.
        for cap in (0..full.len()).filter(|k| full.len() <= 250 || gen::notable(*k, full.len(), 6)) {
            judge(w, cap, "capacity", Sink::new(usize::MAX, cap));
        }
        // Exactly enough room.
        let mut s = Sink::new(usize::MAX, full.len());
        let r = print(v, form, &mut s);
        w.evals += 1;
        w.check(r.is_ok() && s.out == full, "exact-capacity", || format!("form {form}: a sink with exactly enough room gives {r:?}"));
    }
}

fn judge(case: &[u8], w: &mut W) {
    let Some((&tag, rest)) = case.split_first() else { return };
    let h = engine::hash_bytes(0, case);
    match tag {
        b'J' => {
            // The printed text does not depend on the source's whitespace.
            if rp::strip(rest) != rest {
                return;
            }
            let pc = ParseConfig::new().allowing_all_types_at_root(true).allowing_trailing_commas();
            if let Ok(v) = Value::from_json_bytes_with_config(rest, pc) {
                faults(w, h, &v);
            }
        }
        _ => {
            // Values built from text that needs escaping.
            let Ok(text) = std::str::from_utf8(rest) else { return };
            faults(w, h, &Value::from(text));
            let mut o = Object::new();
            o.push(Entry::new(text, JsonString::from(text.to_string())));
            o.push(Entry::new("", vec![Value::from(text), Value::Null]));
            faults(w, h ^ 1, &Value::from(o));
        }
    }
}

fn with_tag(tag: u8, f: Family, max: usize) -> Family {
    let tasks = f
        .tasks
        .into_iter()
        .map(|t| {
            gen::task(move |sink| {
                t(&mut |c: &[u8]| {
                    if c.len() <= max {
                        sink(&[&[tag][..], c].concat());
                    }
                });
            })
        })
        .collect();
    Family { name: f.name, tasks }
}

fn families(tier: Tier) -> Vec<Family> {
    let chars: Vec<Vec<u8>> = "a\"\\/\u{7}\u{0}\u{1f}\n\t\u{e9}\u{1f639}".chars().map(|c| c.to_string().into_bytes()).collect();
    let longest = tier.pick(1100, 5200);
    let far = gen::far(tier, gen::good_atoms()).into_iter().map(|f| {
        let max = if f.name.starts_with("something far") { 5200 } else { longest };
        with_tag(b'J', gen::shorter(f, max), max)
    });
    let mut v = vec![
        with_tag(b'J', gen::trees(6, 4, false, 0), 400),
        with_tag(b'J', gen::words("well-formed atoms", &gen::good_atoms(), tier.pick(2, 3), b"[\"", b"\"]"), 400),
        with_tag(b'J', gen::words("well-formed atoms as key", &gen::good_atoms(), tier.pick(2, 2), b"{\"", b"\":{}}"), 400),
        with_tag(b'J', gen::wide(tier), tier.pick(120, 300)),
        with_tag(b'J', gen::near(Tier::Quick), tier.pick(45, 70)),
        with_tag(b'J', gen::shorter(gen::pumps(tier), tier.pick(160, 600)), longest),
        with_tag(b'J', gen::token_trie(jjmc::pda::Cfg { trailing: false, limit: None, root_any: true }, tier.pick(6, 8)), 400),
        with_tag(b'T', gen::words("text that needs escaping", &chars, tier.pick(4, 5), b"", b""), 400),
    ];
    v.extend(far);
    v
}

fn main() {
    engine::main(Check {
        id: "C14",
        level: Level::FaultEnumeration,
        rule: "one evaluation prints one value in one of seven forms into a sink that fails at one chosen write, or is full at one chosen byte; every write and every byte of every form of every enumerated value is chosen (of more than 150 writes or 250 bytes: the first and last 6 and those next to powers of two from either end); distinct (value, form, fault) combinations are counted",
        assumptions: &[],
        families,
        judge,
        stack_mb: 0,
        show: engine::show_bytes,
    })
}
