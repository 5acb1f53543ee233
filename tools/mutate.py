#!/usr/bin/env python3
"""Mutation analysis of the checks (a development tool, no check uses it).
mutate.py gen OUT.json            enumerate single-line mutants of /repo/src
mutate.py tests OUT.json SCRATCH  keep those that compile and pass /repo's tests
mutate.py checks OUT.json SCRATCH run the checks against what is left, until the first that fails
All work happens in copies below SCRATCH."""
import json, os, random, re, shutil, subprocess, sys, hashlib
from concurrent.futures import ThreadPoolExecutor
FILES = ["anystr.rs", "doc.rs", "error.rs", "number.rs", "parser.rs", "string.rs", "value.rs"]
KINDS = ["UnexpectedEof", "ExpectedValue", "UnclosedArray", "UnclosedObject", "UnclosedString", "ExpectedColon"]
SWAPS = [(r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r" < ", " <= "), (r" <= ", " < "),
         (r" > ", " >= "), (r" >= ", " > "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.\.=", ".."), (r" \+ ", " - "),
         (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "), (r" << ", " >> "), (r" >> ", " << "), (r"\.all\(", ".any("),
         (r"\bLess\b", "Greater"), (r"\bGreater\b", "Less"), (r"\.reverse\(\)", ""), (r"!self\.", "self."), (r"!state\.", "state."),
         (r"if let ", "if true && let "), (r"\boffset,", "offset: offset + 1,"), (r"\boffset,", "offset: 0,"), (r"\boffset,", "offset: self.tokenizer.offset(),"),
         (r"\boffset,", "offset: self.source.offset,"), (r"offset: self\.source\.offset", "offset: self.source.offset.saturating_sub(1)"),
         (r"offset: self\.tokenizer\.offset\(\)", "offset"), (r"has_escapes\(\)", "has_escapes() == false"), (r" if [^=]*?(?= =>)", ""),
         (r"\.decoded_len\(\)", ".len()"), (r"\.len\(\)", ".decoded_len()"), (r"\.len\(\)", ".len() + 1"), (r"len_utf8\(\)", "len_utf16()"),
         (r"\?;", ".ok();"), (r"Ok\(\(\)\)", "Err(fmt::Error)"), (r"\.next\(\)", ".nth(1)"), (r"\bSome\((\w+)\)$", "None"),
         (r"add_bytes_from_escape", "add_bytes"), (r"add_bytes\(", "add_bytes_from_escape("), (r"Array", "Object"), (r"Object", "Array"),
         (r"Json\(", "Raw("), (r"Raw\(", "Json("), (r"\bself\b", "other"), (r"\bother\b", "self"), (r"\bleft\b", "right"), (r"\bright\b", "left"),
         (r"\ba\b", "b"), (r"\bb\b", "a"), (r"\bkey\b", "value"), (r"\blen\b", "0"), (r"indentation", "line_ending"), (r"\.clone\(\)", ".skip(1)"),
         (r"break;", "continue;"), (r"continue;", "break;"), (r"\.saturating_add", ".saturating_sub"), (r"\.iter\(\)", ".iter().rev()"),
         (r"\.iter_mut\(\)", ".iter_mut().rev()"), (r"peek\(\)", "next()"), (r"\|\| ", "&& "), (r"u8::MAX", "0")]

def gen(out):
    ms = []
    for f in FILES:
        lines = open(f"/repo/src/{f}").read().split("\n")
        skip, depth = set(), 0
        i = 0
        while i < len(lines):
            if lines[i].strip() in ("#[test]", "#[cfg(test)]") :
                j = i
                d = 0
                seen = False
                while j < len(lines):
                    d += lines[j].count("{") - lines[j].count("}")
                    seen |= "{" in lines[j]
                    skip.add(j)
                    if seen and d <= 0: break
                    j += 1
                i = j
            i += 1
        for n, l in enumerate(lines):
            s = l.strip()
            if n in skip or not s or s.startswith(("//", "#[", "use ", "pub use", "impl", "struct", "pub struct", "enum", "pub enum", "type ")): continue
            outs = set()
            for pat, rep in SWAPS:
                for m in re.finditer(pat, l):
                    outs.add(l[:m.start()] + m.expand(rep) + l[m.end():])
            for m in re.finditer(r"\b(0x[0-9A-Fa-f_]+|\d+)\b", l):
                try: v = int(m.group(1).replace("_", ""), 0)
                except ValueError: continue
                for w in {v + 1, max(v - 1, 0), 0} - {v}:
                    outs.add(l[:m.start()] + str(w) + l[m.end():])
            for m in re.finditer(r"b'(\\.|\\x..|.)'", l):
                outs.add(l[:m.start()] + "b'x'" + l[m.end():])
            for m in re.finditer(r"b'(\\.|.)' \| ", l):
                outs.add(l[:m.start()] + l[m.end():])
            for m in re.finditer(r'"[^"]*"', l):
                if "doc" in l or "expect" in l or "unreachable" in l: continue
                outs.add(l[:m.start()] + '"?"' + l[m.end():]); outs.add(l[:m.start()] + '""' + l[m.end():])
            for m in re.finditer(r"ErrorKind::(\w+)", l):
                outs.add(l[:m.start()] + "ErrorKind::" + KINDS[(n + len(m.group(1))) % 6] + l[m.end():])
            for m in re.finditer(r"\b(ER|UC|BS|QU|__|ERR|\d+_+),", l):
                if n % 5 == 0: outs.add(l[:m.start()] + ("__" if m.group(1) in ("ER", "UC", "BS", "QU") else "ER" if m.group(1) == "__" else "1__" if m.group(1) == "ERR" else "ERR") + l[m.end():])
            if s.endswith(";") and not s.startswith(("let ", "return", "break", "const", "pub const", "static")): outs.add("")
            if re.match(r"^[^=]*=> .*,$", s): outs.add("")
            for o in outs:
                if o != l: ms.append(dict(file=f, line=n + 1, old=l, new=o))
    for m in ms: m["id"] = hashlib.sha1(json.dumps([m["file"], m["line"], m["new"]]).encode()).hexdigest()[:10]
    json.dump(ms, open(out, "w"), indent=0)
    print(len(ms), "mutants")

def apply(root, m):
    p = f"{root}/repo/src/{m['file']}"
    lines = open(f"/repo/src/{m['file']}").read().split("\n")
    assert lines[m["line"] - 1] == m["old"]
    lines[m["line"] - 1] = m["new"]
    open(p, "w").write("\n".join(lines))
def undo(root, m): shutil.copyfile(f"/repo/src/{m['file']}", f"{root}/repo/src/{m['file']}")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")

def sh(cmd, cwd, t, env=None):
    try:
        return subprocess.run("ulimit -v 20000000; " + cmd, shell=True, cwd=cwd, timeout=t, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    except subprocess.TimeoutExpired as e:
        subprocess.run(["pkill", "-f", os.path.dirname(cwd) + "/"]); return None

def tests(out, scratch):
    ms = json.load(open(out)); W = 8
    for w in range(W):
        d = f"{scratch}/t{w}"; os.makedirs(d, exist_ok=True)
        if not os.path.exists(f"{d}/repo"): 
            subprocess.run(["cp", "-a", "/repo", f"{d}/repo"], check=True)
            subprocess.run(f"rm -r {d}/repo/target; sed -i -E 's/, *\"xtask\"|\"xtask\" *,? *//' {d}/repo/Cargo.toml", shell=True, check=True)
    def run(w):
        d = f"{scratch}/t{w}"
        for m in ms[w::W]:
            if "tests" in m: continue
            apply(d, m)
            env = dict(ENV, CARGO_TARGET_DIR=f"{d}/target", CARGO_BUILD_JOBS="2")
            r = sh("cargo check -p justjson --lib --features heapless --offline", f"{d}/repo", 120, env)
            if r is None or r.returncode: m["tests"] = "build"
            else:
                r = sh("cargo check -p justjson --lib --no-default-features --offline && cargo test -p justjson --lib --tests --features heapless --offline -- --test-threads 2", f"{d}/repo", 60, env)
                m["tests"] = "killed" if r is None or r.returncode else "passed"
            undo(d, m)
            if w == 0: json.dump(ms, open(out + ".part", "w"), indent=0)
    with ThreadPoolExecutor(W) as ex: list(ex.map(run, range(W)))
    json.dump(ms, open(out, "w"), indent=0)
    from collections import Counter; print(Counter(m["tests"] for m in ms))

ORDER = "25 31 30 29 05 13 01 12 27 21 22 06 14 18 19 15 07 28 24 10 09 11 08 23 17 20 03 16 02 04 26 32 33".split()
# What is likely to notice first.
FIRST = {"parser.rs": "25 03 07 20 01", "string.rs": "08 07 22 09 11", "value.rs": "13 23 14 05", "doc.rs": "15 16 17 30 03",
         "error.rs": "25 19 17", "number.rs": "21 22 05", "anystr.rs": "24 30 31"}
def checks(out, scratch):
    """A further argument tries only the first checks and marks what they let pass as OPEN."""
    ms = json.load(open(out)); W = 3
    quick = len(sys.argv) > 4

    todo = [m for m in ms if m["tests"] == "passed" and m.get("killed_by") is None]
    random.Random(7).shuffle(todo)
    def run(w):
        d = f"{scratch}/c{w}"; os.makedirs(d, exist_ok=True)
        if not os.path.exists(f"{d}/repo"): subprocess.run(["cp", "-a", "/repo", f"{d}/repo"], check=True)
        sh(f"mkdir -p {d}/verif && cd /verif && git archive HEAD | tar x -C {d}/verif", "/", 60)
        sh(f"sed -i 's#cd /repo#cd {d}/repo#' {d}/verif/env.sh", "/", 60)
        for k, m in list(enumerate(todo))[w::W]:
            apply(d, m)
            first = FIRST[m["file"]].split()
            by = "OPEN" if quick else "SURVIVED"
            for c in first + ([] if quick else [c for c in ORDER if c not in first]):
                r = sh(f"./check.sh C{c}", f"{d}/verif", 400)
                if r is None or r.returncode != 0:
                    by = f"C{c}" + ("" if r is not None and r.returncode == 1 else " rc?" ); break
            m["killed_by"] = by
            undo(d, m)
            print(k, len(todo), m["file"], m["line"], by, m["new"].strip() or "(deleted) " + m["old"].strip(), flush=True)
            json.dump(ms, open(f"{out}.{w}", "w"), indent=0); os.replace(f"{out}.{w}", out)
    with ThreadPoolExecutor(W) as ex: list(ex.map(run, range(W)))
{"gen": lambda: gen(sys.argv[2]), "tests": lambda: tests(sys.argv[2], sys.argv[3]), "checks": lambda: checks(sys.argv[2], sys.argv[3])}[sys.argv[1]]()
