#!/usr/bin/env python3
"""mutate.py LANE SEED COUNT [FILE-REGEX]: random small source changes in a scratch copy; those that compile and pass
the repository's tests are run through every check. Survivors (caught by nothing) are logged for a human to look at."""
import os, random, re, subprocess, sys, shutil, difflib, time
lane, seed, count = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
only = re.compile(sys.argv[4]) if len(sys.argv) > 4 else None
W = f"/tmp/mut/L{lane}"
R = W + "/repo"
LOG = f"/tmp/mut/log{lane}"
env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="nightly-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="",
           CARGO_BUILD_JOBS="4")
def sh(cmd, cwd, t=900, **kw):
    e = dict(env); e.update(kw)
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        subprocess.run("pkill -f " + W + "/", shell=True)
        return 99, "timeout"
if not os.path.exists(R):
    os.makedirs(W)
    sh(f"git clone -q /repo {R}", "/tmp")
sh("git fetch -q && git checkout -q -f origin/HEAD", R)
shutil.rmtree(W + "/sim", ignore_errors=True)
shutil.copytree("/verif/sim", W + "/sim", ignore=shutil.ignore_patterns("target", "target.log"))
s = open(W + "/sim/Cargo.toml").read().replace('"/repo', f'"{R}')
open(W + "/sim/Cargo.toml", "w").write(s)
files = []
for d in "src buffer/src derive_macros/src dynamic/src flatten/src fmt/src json/src nested/src ref/src serde/src test/src".split():
    for root, _, fs in os.walk(f"{R}/{d}"):
        files += [os.path.join(root, f) for f in fs if f.endswith(".rs")]
files = sorted(f for f in files if not only or only.search(f))
def code(f):
    L = open(f).read().split("\n")
    n = len(L)
    for i, l in enumerate(L):
        if "#[cfg(test)]" in l and i + 1 < len(L) and "mod" in L[i + 1] and not l.startswith("  "):
            n = i; break
    # blank out comments so they aren't mutated
    inside, C = False, []
    for l in L:
        t = l.strip()
        if inside or t.startswith("/*") or t.startswith("//"):
            C.append("")
            if t.startswith("/*"): inside = True
            if "*/" in t: inside = False
        else: C.append(l)
    return L, C, n
OPS = [
    (r"^(\s+)([\w.:]+\(.*\))\?;$", r"\1let _ = \2;"),
    (r"^(\s+)([\w.:]+\(.*\))\?;$", r"\1"),
    (r"^(\s+)(self|stream)\.[^=]*\);$", r"\1"),
    (r"^(\s+)[\w.]+ [+-]?= .*;$", r"\1"),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" > ", " >= "), (r" >= ", " > "), (r" <= ", " < "),
    (r" && ", " || "), (r" \|\| ", " && "),
    (r"if !", "if "), (r"\bif ([\w.]+\([^{]*\)|[\w.]+) \{", r"if !(\1) {"), (r"\bif [^{]*[^=]\{$", "if true {"), (r"\bif [^{]*\{$", "if false {"),
    (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+= 1", " += 2"), (r"\+= ", "-= "), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b2\b", "3"),
    (r"([(,] ?)Some\([^()]*\)", r"\1None"),
    (r"_computed\(", "("), (r"fragment\(", "fragment_computed("), (r"\.value\(", ".value_computed("),
    (r"_begin\(", "_end("), (r"_end\(", "_begin("), (r"_key_", "_value_"), (r"_value_", "_key_"),
    (r", label,", ", None,"), (r", index\)", ", None)"), (r"\(tag,", "(None,"), (r", label\)", ", None)"), (r", index,", ", None,"),
    (r"tag\.cloned\(\)", "None"), (r"index\.cloned\(\)", "None"), (r"Some\(label\)", "None"), (r"Some\(tag\)", "None"), (r"Some\(index\)", "None"),
    (r"\.to_owned\(\)", ""), (r"\.clone\(\)", ""), (r"\.into_owned\(\)", ""), (r"is_none\(\)", "is_some()"), (r"is_some\(\)", "is_none()"),
    (r"Ok\(\(\)\)", "Err(Error::new())"), (r"Err\(.*\)$", "Ok(())"), (r"Err\(sval::Error::new\(\)\)", "Ok(())"),
    (r"\.map_err\([^()]*\)", ""), (r"sval::error\(\)", "Ok(())"), (r"\.or_else\(.*\)", ""), (r"num_entries", "None"), (r"num_bytes", "None"),
    (r"i32\b", "i16"), (r"u64\b", "u32"), (r"i64\b", "i32"), (r"f64\b", "f32"), (r"i128\b", "i64"), (r"u128\b", "u64"), (r"tags::(\w+)", "tags::NUMBER"), (r"Begin\b", "End"),
    (r"\bmin\b", "max"), (r"\.push\(.*\);", ";"), (r"\.pop\(\)", ".last().cloned()"), (r"\.take\(\)", ".clone()"), (r"mem::take\(&mut ([\w.]+)\)", r"\1.clone()"),
    (r"\.\.=?", "..="), (r"'\\?(.)'", "'x'"), (r'"([^"]+)"', '"x"'),
]
rng = random.Random(seed)
FIRST = {"buffer": "C03 C04 C09", "flatten": "C14", "fmt": "C10", "json": "C05 C06", "nested": "C11 C12", "serde": "C12 C13", "dynamic": "C01", "ref": "C01", "test": "C18", "experiments": "C19", "derive_macros": "C15 C14", "src": "C02 C15 C01"}
ALL = [f"C{i:02d}" for i in range(1, 19) if i != 17]
def log(*a):
    with open(LOG, "a") as o: print(*a, file=o)
done = 0
seen = set()
while done < count:
    # files weighted by size
    f = rng.choices(files, [os.path.getsize(x) for x in files])[0]
    L, C, n = code(f)
    cand = [i for i in range(n) if C[i].strip() and not re.match(r"\s*(//|/?\*|#|use |pub mod|mod |pub use)", L[i]) and "debug_assert" not in L[i]]
    if not cand: continue
    i = rng.choice(cand)
    ops = [o for o in OPS if re.search(o[0], L[i])]
    if not ops: continue
    a, b = rng.choice(ops)
    if '"' in a and re.search(r'custom\(|invalid_value|unsupported|no_alloc|panic|expect|debug_struct|field\(', L[i]): continue
    ms = list(re.finditer(a, L[i]))
    m = rng.choice(ms)
    new = L[i][:m.start()] + m.expand(b) + L[i][m.end():]
    if new == L[i] or (f, i, new) in seen: continue
    seen.add((f, i, new))
    rel = os.path.relpath(f, R)
    name = f"{rel}:{i+1}"
    diff = f"  - {L[i].strip()}\n  + {new.strip()}"
    M = list(L); M[i] = new
    open(f, "w").write("\n".join(M))
    try:
        t0 = time.time()
        rc, o = sh("cargo check --offline -q --workspace --all-features 2>&1 | grep -c '^error'", R)
        if o.strip() != "0": continue
        rc, o = sh("cargo nextest run --offline --workspace --all-features --no-tests pass --all-targets --fail-fast 2>&1 | tail -3", R, 300)
        if "0 failed" not in o and ("failed" in o or "error" in o or rc == 99): 
            log(f"tests {name}\n{diff}"); continue
        done += 1
        rc, o = sh(f"cargo build --offline -q --release --target-dir {W}/t 2>&1 | grep -A5 '^error'", W + "/sim")
        if rc == 0:
            log(f"NOBUILD {name}\n{diff}\n{o[:600]}"); continue
        first = FIRST[rel.split("/")[0]].split()
        caught = None
        for p in first + [p for p in ALL if p not in first]:
            rc, o = sh(f"{W}/t/release/sim check {p} quick", W + "/sim", 120, SIM_SECS="8", SIM_WORKERS="4", VERIF_DIR=W + "/vd", VERIF_SEED="1")
            if rc != 0:
                caught = p; 
                cl = [l for l in o.split("\n") if l.startswith("  class")]
                break
        if caught:
            log(f"caught {caught} {name} rc={rc} {cl[0] if cl else o[-200:]}\n{diff}")
            continue
        rc, o = sh(f"cargo build --offline -q --profile noalloc --no-default-features --target-dir {W}/na 2>&1 | grep -A5 '^error'", W + "/sim")
        rc, o = sh(f"{W}/na/noalloc/sim check C17 quick", W + "/sim", 120, SIM_SECS="8", SIM_WORKERS="4", VERIF_DIR=W + "/vd")
        if rc == 1:
            log(f"caught C17 {name}\n{diff}"); continue
        log(f"SURVIVED {name} ({time.time()-t0:.0f} s)\n{diff}")
    finally:
        open(f, "w").write("\n".join(L))
