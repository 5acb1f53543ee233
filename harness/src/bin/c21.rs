//! C21: numeric accessors return the exact value, or nothing.
use jjmc::big::{self, Lit, F32, F64};
use jjmc::engine::{self, mix, Check, Family, Level, Task, Tier, W};
use jjmc::pda::{is_ws, Cfg};
use jjmc::{gen, rp, util};
use justjson::doc::{Document, Node};
use justjson::parser::{Token, Tokenizer};
use justjson::{JsonNumber, Value};

/// What every accessor answers.
#[derive(PartialEq, Clone, Debug)]
struct Answers {
    u: [Option<u128>; 6],
    i: [Option<i128>; 6],
    f32: Option<u32>,
    f64: Option<u64>,
}

macro_rules! answers {
    ($x:expr) => {
        Answers {
            u: [
                $x.as_u8().map(u128::from),
                $x.as_u16().map(u128::from),
                $x.as_u32().map(u128::from),
                $x.as_u64().map(u128::from),
                $x.as_u128(),
                $x.as_usize().map(|n| n as u128),
            ],
            i: [
                $x.as_i8().map(i128::from),
                $x.as_i16().map(i128::from),
                $x.as_i32().map(i128::from),
                $x.as_i64().map(i128::from),
                $x.as_i128(),
                $x.as_isize().map(|n| n as i128),
            ],
            f32: $x.as_f32().map(f32::to_bits),
            f64: $x.as_f64().map(f64::to_bits),
        }
    };
}
fn parsed(x: &JsonNumber<'_>) -> Answers {
    Answers {
        u: [
            x.parse::<u8>().ok().map(u128::from),
            x.parse::<u16>().ok().map(u128::from),
            x.parse::<u32>().ok().map(u128::from),
            x.parse::<u64>().ok().map(u128::from),
            x.parse::<u128>().ok(),
            x.parse::<usize>().ok().map(|n| n as u128),
        ],
        i: [
            x.parse::<i8>().ok().map(i128::from),
            x.parse::<i16>().ok().map(i128::from),
            x.parse::<i32>().ok().map(i128::from),
            x.parse::<i64>().ok().map(i128::from),
            x.parse::<i128>().ok(),
            x.parse::<isize>().ok().map(|n| n as i128),
        ],
        f32: x.parse::<f32>().ok().map(f32::to_bits),
        f64: x.parse::<f64>().ok().map(f64::to_bits),
    }
}

const WIDTHS: [u32; 6] = [8, 16, 32, 64, 128, usize::BITS];
const NOTHING: Answers = Answers { u: [None; 6], i: [None; 6], f32: None, f64: None };

/// Compares the answers with the exact value of the literal.
fn exact(w: &mut W, a: &Answers, l: &Lit, how: &str) {
    let n = big::integer(l);
    for (k, bits) in WIDTHS.iter().enumerate() {
        let max = if *bits == 128 { u128::MAX } else { (1 << bits) - 1 };
        let want = match n {
            Some((false, m)) if m <= max => Some(m),
            _ => None,
        };
        w.check(a.u[k] == want, "unsigned", || format!("{how}: unsigned {k} is {:?}, expected {want:?}", a.u[k]));
        let half = 1u128 << (bits - 1);
        let want = match n {
            Some((false, m)) if m < half => Some(m as i128),
            Some((true, m)) if m <= half => Some((m as i128).wrapping_neg()),
            _ => None,
        };
        w.check(a.i[k] == want, "signed", || format!("{how}: signed {k} is {:?}, expected {want:?}", a.i[k]));
    }
    let ok = a.f32.is_some_and(|b| (b >> 31 == 1) == l.neg && big::rounds_to(l, u64::from(b & 0x7fff_ffff), F32));
    w.check(ok, "f32", || format!("{how}: as_f32 {:?} is not the nearest", a.f32.map(f32::from_bits)));
    let ok = a.f64.is_some_and(|b| (b >> 63 == 1) == l.neg && big::rounds_to(l, b & (!0 >> 1), F64));
    w.check(ok, "f64", || format!("{how}: as_f64 {:?} is not the nearest", a.f64.map(f64::from_bits)));
}

fn judge(case: &[u8], w: &mut W) {
    let Ok(text) = std::str::from_utf8(case) else { return };
    let cfg = Cfg { trailing: false, limit: Some(128), root_any: true };
    let Some(tree) = rp::parse(case, &cfg) else { return };
    w.traces += 1;
    let v = match Value::from_json(text) {
        Ok(v) => v,
        Err(e) => return w.fail("rejected", format!("{e:?}")),
    };
    let rp::RVal::Num((s, e)) = tree else {
        // Not a number: nothing, whatever it contains; neither do its members.
        let a = answers!(v);
        w.state(mix(3, u64::from(tree.kind())));
        w.check(a == NOTHING, "not-a-number", || format!("accessors of a non-number: {a:?}"));
        return;
    };
    let lit = &case[s..e];
    let l = big::literal(lit);
    // Model state: the form of the literal and which types it fits.
    let mut st = mix(u64::from(l.neg) << 1 | u64::from(l.plain), l.exp.clamp(-400, 400) as u64);
    st = mix(st, l.digits.len().min(800) as u64);
    if let Some((_, m)) = big::integer(&l) {
        st = mix(st, u64::from(m.leading_zeros()));
    }
    w.state(st);
    w.edge(st, engine::hash_bytes(0, &lit[..lit.len().min(40)]));
    let Some(n) = v.as_number() else { return w.fail("not-a-number", "the value is not a number") };
    let a = answers!(n);
    exact(w, &a, &l, "number");
    let same = |w: &mut W, b: Answers, how: &str| {
        w.check(a == b, "disagree", || format!("{how} {b:?}, number accessors {a:?}"));
    };
    same(w, answers!(v), "value accessors");
    same(w, parsed(n), "parse()");
    w.traces += 2;
    match JsonNumber::from_json(text) {
        Ok(n) => same(w, answers!(n), "from_json"),
        Err(e) => w.fail("rejected", format!("from_json {e:?}")),
    }
    if case.len() > 3000 {
        return;
    }
    w.traces += 4;
    match Tokenizer::for_json_bytes(case).next() {
        Some(Ok(Token::Number(n))) => same(w, answers!(n), "token"),
        other => w.fail("rejected", format!("token {other:?}")),
    }
    match Document::from_json(text).as_ref().map(|d| d.iter().next()) {
        Ok(Some(Node::Number(n))) => same(w, answers!(n), "document"),
        other => w.fail("rejected", format!("document {other:?}")),
    }
    if case.first().is_some_and(|b| is_ws(*b)) {
        return;
    }
    let outer = format!("[{text},{{\"a\":{text}}}]");
    match Value::from_json(&outer) {
        Ok(v) => {
            same(w, answers!(v[0]), "element");
            same(w, answers!(v[1]["a"]), "member");
        }
        Err(e) => w.fail("rejected", format!("nested {e:?}")),
    }
    let quoted = format!("\"{text}\"");
    if let Ok(v) = Value::from_json(&quoted) {
        let a = answers!(v);
        w.check(a == NOTHING, "not-a-number", || format!("accessors of a string: {a:?}"));
    }
    let _ = util::bs();
}

/// Every integer of up to 17 bits, both signs.
fn small_ints() -> Family {
    let tasks: Vec<Task> = (0..=136u32)
        .map(|b| {
            gen::task(move |sink| {
                for n in b * 1000..(b + 1) * 1000 {
                    sink(format!("{n}").as_bytes());
                    sink(format!("-{n}").as_bytes());
                }
            })
        })
        .collect();
    gen::family("every integer of magnitude <137000", tasks)
}

/// Integers next to every power of two and ten, in every form.
fn boundaries(tier: Tier) -> Family {
    let mut bases: Vec<big::Nat> = Vec::new();
    for k in 0..=160usize {
        let mut n = big::Nat::small(1);
        n.shl(k);
        bases.push(n.clone());
        if tier == Tier::Thorough {
            n.mul_add(3, 0);
            bases.push(n);
        }
    }
    for k in 0..=48 {
        let mut n = big::Nat::small(1);
        n.pow_mul(10, k);
        bases.push(n);
    }
    let tasks: Vec<Task> = bases
        .into_iter()
        .map(|n| {
            gen::task(move |sink| {
                let d: Vec<u8> = n.decimal().into_bytes();
                let mut variants: Vec<String> = Vec::new();
                // n + k for k in -9..=9, by decimal carry.
                for k in -9i32..=9 {
                    let mut v: Vec<i32> = d.iter().map(|b| i32::from(b - b'0')).collect();
                    let mut i = v.len() - 1;
                    v[i] += k;
                    while i > 0 && (v[i] < 0 || v[i] > 9) {
                        let c = v[i].div_euclid(10);
                        v[i] = v[i].rem_euclid(10);
                        v[i - 1] += c;
                        i -= 1;
                    }
                    if v[0] < 0 {
                        continue;
                    }
                    let s: String = v.iter().map(|x| x.to_string()).collect();
                    let s = s.trim_start_matches('0');
                    variants.push(if s.is_empty() { "0".into() } else { s.into() });
                }
                // Each digit of the bound raised or lowered by one.
                for i in 0..d.len() {
                    for k in [-1i32, 1] {
                        let x = i32::from(d[i] - b'0') + k;
                        if (0..=9).contains(&x) && !(i == 0 && x == 0) {
                            let mut e = d.clone();
                            e[i] = b'0' + x as u8;
                            variants.push(String::from_utf8(e).unwrap());
                        }
                    }
                }
                for s in variants {
                    for sign in ["", "-"] {
                        for tail in ["", ".0", "e0", "E+0", "e-0", ".00e1", "e1", "e-1", "0", "00"] {
                            if s != "0" || tail.starts_with(['.', 'e', 'E']) || tail.is_empty() {
                                sink(format!("{sign}{s}{tail}").as_bytes());
                            }
                        }
                        sink(format!(" \n{sign}{s}\t ").as_bytes());
                    }
                }
            })
        })
        .collect();
    gen::family("integers around every power of two and ten", tasks)
}

/// Writes digits * 10^exp in several ways, and its decimal neighbours.
fn spell(sink: gen::Sink<'_>, digits: &str, exp: i32, all: bool) {
    let mut emit = |d: &str, e: i32| {
        let d = d.trim_start_matches('0');
        if d.is_empty() {
            return;
        }
        sink(format!("{d}e{e}").as_bytes());
        if all {
            sink(format!("-0.{d}E{}", e + d.len() as i32).as_bytes());
            if d.len() > 1 {
                sink(format!("{}.{}e+{}", &d[..1], &d[1..], e + d.len() as i32 - 1).replace("+-", "-").as_bytes());
            }
            if e >= 0 && e < 60 {
                sink(format!("{d}{}", "0".repeat(e as usize)).as_bytes());
                sink(format!("{d}{}.0", "0".repeat(e as usize)).as_bytes());
            } else if e < 0 && (-e as usize) < d.len() {
                let p = d.len() - -e as usize;
                sink(format!("{}.{}", &d[..p], &d[p..]).as_bytes());
            }
        }
    };
    emit(digits, exp);
    emit(&format!("{digits}1"), exp - 1);
    emit(&format!("{digits}{}1", "0".repeat(30)), exp - 31);
    let n = big::Nat::digits(digits.as_bytes());
    // One below in the last place, by decimal borrow.
    let mut v: Vec<u8> = n.decimal().into_bytes();
    let mut i = v.len();
    while i > 0 {
        i -= 1;
        if v[i] == b'0' {
            v[i] = b'9';
        } else {
            v[i] -= 1;
            break;
        }
    }
    let below = String::from_utf8(v).unwrap();
    emit(&below, exp);
    emit(&format!("{below}{}", "9".repeat(30)), exp - 30);
}

/// Exact halfway points between neighbouring floats at every exponent, and decimals next to them.
fn halfway(tier: Tier) -> Vec<Family> {
    let mut f32s: Vec<Task> = Vec::new();
    for biased in 0..=254i32 {
        f32s.push(gen::task(move |sink| {
            let hidden = if biased == 0 { 0u128 } else { 1 << 23 };
            let q = -149 + biased.max(1) - 1;
            for m in [0u128, 1, 2, 3, 0x7fffff, 0x7ffffe, 0x400000, 0x3fffff, 0x2aaaaa, 0x555555] {
                let m = m | hidden;
                // halfway, a value, and halfway displaced by less than half an f64 step
                // (rounding through f64 would land on the tie)
                let (d, e) = big::exact(2 * m + 1, q - 1);
                spell(sink, &d, e, true);
                let (d, e) = big::exact(m.max(1), q);
                spell(sink, &d, e, false);
                for k in [30i32, 31, 40, 60] {
                    for up in [true, false] {
                        let wide = (2 * m + 1) << k;
                        let (d, e) = big::exact(if up { wide + 1 } else { wide - 1 }, q - 1 - k);
                        sink(format!("{d}e{e}").as_bytes());
                    }
                }
            }
        }));
    }
    let mut f64s: Vec<Task> = Vec::new();
    let ms: &'static [u128] = if tier == Tier::Quick {
        &[0, 1, 0xf_ffff_ffff_ffff, 0x8_0000_0000_0000]
    } else {
        &[0, 1, 2, 3, 0xf_ffff_ffff_ffff, 0xf_ffff_ffff_fffe, 0x8_0000_0000_0000, 0x7_ffff_ffff_ffff, 0x5_5555_5555_5555, 0xa_aaaa_aaaa_aaaa]
    };
    for chunk in (0..=2046i32).collect::<Vec<_>>().chunks(8) {
        let chunk = chunk.to_vec();
        f64s.push(gen::task(move |sink| {
            for &biased in &chunk {
                let hidden = if biased == 0 { 0u128 } else { 1 << 52 };
                let q = -1074 + biased.max(1) - 1;
                for m in ms {
                    let m = m | hidden;
                    let (d, e) = big::exact(2 * m + 1, q - 1);
                    spell(sink, &d, e, tier == Tier::Thorough);
                    // truncated expansions
                    for n in [1, 5, 15, 17, 18, 19, 20, 21, 40, 767, 768] {
                        if n < d.len() {
                            sink(format!("{}e{}", &d[..n], e + (d.len() - n) as i32).as_bytes());
                        }
                    }
                }
            }
        }));
    }
    // Halfway points in positional notation, decided by a digit far behind, or by none.
    let mut far: Vec<Task> = Vec::new();
    for e in -40i32..=70 {
        far.push(gen::task(move |sink| {
            for (bits, m) in [(24i32, 0u128), (24, 1), (24, 0x7f_ffff), (53, 0), (53, 1), (53, 0xf_ffff_ffff_ffff)] {
                let m = m | 1 << (bits - 1);
                let (d, x) = big::exact(2 * m + 1, e - bits);
                let d = if x >= 0 { format!("{d}{}", "0".repeat(x as usize)) } else { d };
                let places = if x >= 0 { 0 } else { -x as usize };
                let d = if d.len() <= places { format!("{}{d}", "0".repeat(places + 1 - d.len())) } else { d };
                let (int, frac) = d.split_at(d.len() - places);
                for pad in (0..=24).chain([30, 40, 63, 64, 65, 100, 127, 128, 200, 255, 256, 300, 500, 512, 700, 767, 768, 769, 800, 1000, 1024, 1100]) {
                    let zeros = "0".repeat(pad);
                    for end in ["", "1", "0", "9", "1e0", "01"] {
                        sink(format!("{int}.{frac}{zeros}{end}").trim_end_matches('.').as_bytes());
                    }
                    sink(format!("-{int}{frac}{zeros}.1e-{}", places + pad).as_bytes());
                    sink(format!("{int}{frac}{zeros}1E-{}", places + pad + 1).as_bytes());
                    sink(format!("0.{zeros}{int}{frac}1e{}", int.len() + pad).as_bytes());
                    sink(format!("0.{zeros}{int}{frac}E+{}", int.len() + pad).as_bytes());
                }
            }
        }));
    }
    let mut exps: Vec<Task> = Vec::new();
    for e in -420i32..=420 {
        exps.push(gen::task(move |sink| {
            for d in ["1", "2", "4", "5", "7", "9", "1.5", "9.999999999999999999999", "1.7976931348623157", "1.7976931348623159", "3.4028235", "3.40282357", "4.9", "2.4", "2.5", "1.4", "7.1", "2.2250738585072014", "2.2250738585072011", "1.17549435", "0.00000000000000000000000000000000000000000001", "100000000000000000000000000000000000000000000000000", "12345678901234567890123"] {
                for s in ["", "-"] {
                    sink(format!("{s}{d}e{e}").as_bytes());
                }
            }
        }));
    }
    vec![
        gen::family("f32 halfway points at every exponent", f32s),
        gen::family("f64 halfway points at every exponent", f64s),
        gen::family("halfway points with distant digits", far),
        gen::family("decimal exponents -420..=420", exps),
    ]
}

/// Values that are no numbers.
fn others(tier: Tier) -> Vec<Family> {
    vec![gen::trees(tier.pick(4, 5), 7, false, 2), gen::positions("strings", vec![b"1".to_vec(), b"-1".to_vec(), b"\\u0031".to_vec()], 6, b"\"", b"\"")]
}

fn families(tier: Tier) -> Vec<Family> {
    let mut v = vec![small_ints(), boundaries(tier)];
    v.extend(halfway(tier));
    v.extend(others(tier));
    v.extend(gen::numbers(tier.pick(6, 7)).into_iter().take(1));
    v.push(gen::words("digits and signs", &gen::singles(b"-0123456789.e"), tier.pick(4, 5), b"", b""));
    v.push(gen::words("digits and signs around 128 bits", &gen::singles(b"0123456789"), tier.pick(3, 4), b"340282366920938463463374607431768211", b""));
    v.push(gen::words("digits and signs around -2^127", &gen::singles(b"0123456789"), tier.pick(3, 4), b"-170141183460469231731687303715884105", b""));
    v.push(gen::words("digits and signs around 2^64", &gen::singles(b"0123456789"), tier.pick(3, 4), b"18446744073709551", b""));
    v.push(gen::pumps(Tier::Quick));
    v
}

fn main() {
    engine::main(Check {
        id: "C21",
        level: Level::ModelChecking,
        rule: "state = form of a number literal (sign, plain or not, digits, exponent, bit length); transition = (state, literal); each trace reads the literal through one entry point of the real code and compares all 14 accessors with exact decimal arithmetic (integers exactly, floats as the nearest-even neighbour by big-integer comparison)",
        assumptions: &["Floats beyond the largest finite value are expected to round to infinity, as IEEE 754 round-to-nearest does"],
        families,
        judge,
        stack_mb: 0,
        show: engine::show_bytes,
    })
}
