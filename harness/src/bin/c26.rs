//! C26: the feature sets agree. /verif/probe is built once per feature set of the library; each
//! build writes down, for a case, everything observable that is available in every set, and checks
//! what is available only in some of them against what is always there. This check enumerates the
//! cases and compares the six transcripts.

use jjmc::engine::{self, hash_bytes, mix, Check, Family, Level, Task, Tier, W};
use jjmc::gen;
use jjmc::pda::Cfg;
use jjmc::strs;
use std::ffi::{c_char, c_int, c_void, CString};
use std::sync::OnceLock;

extern "C" {
    fn dlopen(path: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(lib: *mut c_void, name: *const c_char) -> *mut c_void;
}

const SETS: [&str; 6] = ["none", "alloc", "std", "heapless", "alloc-heapless", "std-heapless"];

type ProbeFn = unsafe extern "C" fn(*const u8, usize) -> u64;
type TextFn = unsafe extern "C" fn(*const u8, usize, *mut u8, usize) -> usize;
type InitFn = unsafe extern "C" fn();
struct Probe {
    name: &'static str,
    probe: ProbeFn,
    text: TextFn,
}

fn probes() -> &'static [Probe] {
    static P: OnceLock<Vec<Probe>> = OnceLock::new();
    P.get_or_init(|| {
        let root = std::env::var("JJMC_ROOT").unwrap_or_else(|_| "/verif".into());
        SETS.iter()
            .map(|name| {
                let path = CString::new(format!("{root}/target/probe-{name}/release/libjjprobe.so")).unwrap();
                // RTLD_NOW | RTLD_LOCAL
                let lib = unsafe { dlopen(path.as_ptr(), 2) };
                if lib.is_null() {
                    eprintln!("C26: no probe {path:?}");
                    std::process::exit(2);
                }
                let sym = |n: &str| {
                    let n = CString::new(n).unwrap();
                    let p = unsafe { dlsym(lib, n.as_ptr()) };
                    assert!(!p.is_null(), "probe symbol");
                    p
                };
                unsafe {
                    std::mem::transmute::<*mut c_void, InitFn>(sym("jj_init"))();
                    Probe {
                        name,
                        probe: std::mem::transmute::<*mut c_void, ProbeFn>(sym("jj_probe")),
                        text: std::mem::transmute::<*mut c_void, TextFn>(sym("jj_text")),
                    }
                }
            })
            .collect()
    })
}

fn transcript(p: &Probe, case: &[u8]) -> String {
    let mut out = vec![0u8; 8 << 20];
    let n = unsafe { (p.text)(case.as_ptr(), case.len(), out.as_mut_ptr(), out.len()) };
    out.truncate(n);
    String::from_utf8_lossy(&out).into_owned()
}

fn judge(case: &[u8], w: &mut W) {
    let all = probes();
    let first = unsafe { (all[0].probe)(case.as_ptr(), case.len()) };
    // Model state: the transcript common to all builds; edge: which build met it.
    w.state(first);
    for (i, p) in all.iter().enumerate() {
        let d = if i == 0 { first } else { unsafe { (p.probe)(case.as_ptr(), case.len()) } };
        w.traces += 1;
        w.edge(first, mix(i as u64 + 1, hash_bytes(0, &case[..case.len().min(3)])));
        if d == first && d & 1 == 0 {
            continue;
        }
        let (a, b) = (transcript(&all[0], case), transcript(p, case));
        if let Some(l) = b.lines().find(|l| l.starts_with("PANIC ")) {
            w.fail("panic", format!("feature set {}: {l}", p.name));
        } else if d != first {
            let n = a.lines().zip(b.lines()).position(|(x, y)| x != y).unwrap_or(0);
            w.fail(
                "differs",
                format!("feature set {}: {:?} where {} has {:?} (line {n})", p.name, b.lines().nth(n), all[0].name, a.lines().nth(n)),
            );
        }
    }
}

fn prefixed(f: Family, tag: u8) -> Family {
    let tasks = f
        .tasks
        .into_iter()
        .map(|t| -> Task {
            Box::new(move |sink| {
                let mut buf = vec![tag];
                t(&mut |case| {
                    buf.truncate(1);
                    buf.extend_from_slice(case);
                    sink(&buf);
                });
            })
        })
        .collect();
    Family { name: f.name, tasks }
}

fn families(tier: Tier) -> Vec<Family> {
    let loose = Cfg { trailing: true, limit: Some(128), root_any: true };
    let mut v = vec![
        gen::cover(loose, tier.pick(1, 2), false),
        gen::all_bytes(2),
        gen::class_bytes(tier.pick(3, 4)),
        gen::trees(tier.pick(4, 6), 4, true, 4),
        gen::trees(tier.pick(3, 4), 7, true, 3),
        gen::token_trie(loose, tier.pick(6, 8)),
        gen::words("string atoms", &gen::all_atoms(), tier.pick(2, 3), b"\"", b"\""),
        gen::words("well-formed atoms", &gen::good_atoms(), 2, b"{\"", b"\":1}"),
        gen::wide(tier.pick(Tier::Quick, Tier::Thorough)),
        gen::all_u_escapes(),
        gen::mutations(false),
        gen::shorter(gen::pumps(tier), tier.pick(1100, 70_000)),
        gen::near(Tier::Quick),
        gen::deep(tier),
        gen::telling(),
        gen::hex_cases(),
        gen::foreign(tier),
    ];
    if tier == Tier::Thorough {
        v.push(gen::cover(Cfg { trailing: false, ..loose }, 1, true));
    }
    v.extend(gen::far(tier, gen::all_atoms()).into_iter().map(|f| gen::shorter(f, tier.pick(5200, 140_000))));
    v.extend(gen::numbers(tier.pick(4, 6)));
    let mut v: Vec<Family> = v.into_iter().map(|f| prefixed(f, b'J')).collect();
    v.extend(strs::probe_pairs(tier).into_iter().map(|f| prefixed(f, b'R')));
    v
}

fn main() {
    engine::main(Check {
        id: "C26",
        level: Level::ModelChecking,
        rule: "state = complete transcript of the observations of one case (verdicts, error kinds and offsets, tokens, documents at four capacities, decoding, encoding, comparison, hashing, numbers); transition = (state, feature set); each trace runs one case in one of six builds of the library and compares its transcript with that of the build without features, and what only that build offers (Value, Document, HeaplessDocument, owned text) with what all offer",
        assumptions: &["The feature nightly needs another compiler and is not built", "Transcripts are compared by 63-bit digest"],
        families,
        judge,
        stack_mb: 256,
        show: engine::show_bytes,
    })
}
