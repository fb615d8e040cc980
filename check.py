#!/usr/bin/env python3
"""Decide one property by symbolic execution of the compiled code of /repo.

    check.py P01            the tier comes from VERIF_TIER (quick by default)
    check.py P01 --setup    only build the tools (used by setup.sh)

Steps, all repeated on every run:
  1. build /repo's palc and the property's harness module to LLVM bitcode and to a native replayer,
     from one source and one cargo invocation;
  2. link the bitcode with the bitcode of core/alloc/std shipped in the toolchain;
  3. run the symbolic executor (rsym): every path of every scenario, each branch and each assertion
     decided by Z3 over all values of the symbolic bytes;
  4. replay each counterexample against the native build, and a sample of finished paths as well;
  5. write evidence/<id>.json; print VIOLATION only for a counterexample that reproduces.
Exit 0 held, 1 violation, 2 the check itself could not give an answer.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib

V = os.path.dirname(os.path.abspath(__file__))
CACHE = os.path.join(V, ".cache")
TC = "+stable"
TARGET = "x86_64-unknown-linux-gnu"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)
NCPU = os.cpu_count() or 4


def die(msg):
    print("ERROR", msg)
    sys.exit(2)


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode != 0:
        die("%s\nfailed (%d):\n%s" % (" ".join(cmd), r.returncode, r.stdout[-6000:]))
    return r.stdout


def build_engine():
    """The executor, rebuilt when its own sources change."""
    src = os.path.join(V, "rsym")
    h = hashlib.sha256()
    for f in ["Cargo.toml"] + sorted(os.listdir(src + "/src")):
        p = os.path.join(src, f if f == "Cargo.toml" else "src/" + f)
        h.update(open(p, "rb").read())
    exe = os.path.join(CACHE, "rsym-" + h.hexdigest()[:16])
    if not os.path.exists(exe):
        os.makedirs(CACHE, exist_ok=True)
        tgt = tempfile.mkdtemp(prefix="rsym-build-", dir=CACHE)
        run(["cargo", TC, "build", "--release", "--offline", "--manifest-path", src + "/Cargo.toml"],
            env=dict(ENV, CARGO_TARGET_DIR=tgt))
        os.replace(tgt + "/release/rsym", exe)
        shutil.rmtree(tgt, ignore_errors=True)
    return exe


def std_bitcode():
    sysroot = run(["rustc", TC, "--print", "sysroot"], env=ENV).strip()
    tdir = "%s/lib/rustlib/%s" % (sysroot, TARGET)
    ver = hashlib.sha256(run(["rustc", TC, "-vV"], env=ENV).encode()).hexdigest()[:16]
    out = os.path.join(CACHE, "std-" + ver)
    if not os.path.isdir(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix="std-", dir=CACHE)
        for lib in sorted(os.listdir(tdir + "/lib")):
            m = re.match(r"lib(core|alloc|std)-[0-9a-f]+\.rlib$", lib)
            if not m:
                continue
            d = os.path.join(tmp, "x-" + m.group(1))
            os.mkdir(d)
            run([tdir + "/bin/llvm-ar", "x", "%s/lib/%s" % (tdir, lib)], cwd=d)
            for o in sorted(os.listdir(d)):
                if o.endswith(".o"):
                    run([tdir + "/bin/llvm-objcopy", "--dump-section=.llvmbc=%s/%s.bc" % (tmp, o[:-2]), "%s/%s" % (d, o), "/dev/null"])
            shutil.rmtree(d)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return tdir, [os.path.join(out, f) for f in sorted(os.listdir(out)) if f.endswith(".bc")]


def build_harness(feature, work, features):
    """One cargo build: bitcode of palc and harness, and the native replayer."""
    hdir = os.path.join(work, "harness")
    shutil.copytree(os.path.join(V, "harness"), hdir, ignore=shutil.ignore_patterns("target"))
    repo = os.environ.get("CHECK_REPO")  # for trying a check on a scratch copy; never set in MANIFEST.json
    if repo:
        f = hdir + "/Cargo.toml"
        t = open(f).read()
        open(f, "w").write(t.replace('path = "/repo"', 'path = "%s"' % repo))
    derive_lib((repo or "/repo") + "/derive/src", hdir + "/derive/src")
    tgt = os.path.join(work, "target")
    env = dict(ENV, CARGO_TARGET_DIR=tgt,
               RUSTFLAGS="--emit=llvm-bc -C no-vectorize-loops -C no-vectorize-slp -C embed-bitcode=yes -C relocation-model=static")
    cmd = ["cargo", TC, "build", "--release", "--offline", "--target", TARGET, "--no-default-features",
           "--features", ",".join([feature] + features), "--manifest-path", hdir + "/Cargo.toml"]
    gone = []
    for _ in range(4):
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        bad = leave_out(hdir + "/src/mx_def.rs", r.stdout) if r.returncode else []
        gone += bad
        if not bad:
            break
    if r.returncode:
        die("%s\nfailed (%d):\n%s" % (" ".join(cmd), r.returncode, r.stdout[-6000:]))
    deps = "%s/%s/release/deps" % (tgt, TARGET)
    bcs = [os.path.join(deps, f) for f in sorted(os.listdir(deps)) if f.endswith(".bc") and not f.startswith("replay-")]
    return bcs, "%s/%s/release/replay" % (tgt, TARGET), gone


def derive_lib(src, dst):
    """The derive crate as a library: its entry points become functions over proc_macro2's tokens."""
    shutil.copytree(src, dst)
    for d, _, fs in os.walk(dst):
        for f in fs:
            if not f.endswith(".rs"):
                continue
            t = open(d + "/" + f).read()
            t = re.sub(r"\buse std::\{(.*?)\};", std_uses, t, flags=re.S)
            t = re.sub(r"\bstd::collections\b", "crate::collections", t)
            t = re.sub(r"#\[proc_macro_derive\([^\]]*\]", "", t)
            t = re.sub(r"\bextern crate proc_macro;", "", t)
            t = re.sub(r"\bproc_macro::", "proc_macro2::", t)
            t = re.sub(r"\buse syn::parse_macro_input;", "", t)
            t = re.sub(r"\bparse_macro_input, |, parse_macro_input\b", "", t)
            t = re.sub(r"\b(?:syn::)?parse_macro_input!\((\w+) as ([\w:]+)\)",
                       r"match syn::parse2::<\2>(\1) { Ok(v) => v, Err(e) => return e.into_compile_error() }", t)
            if d == dst and f == "lib.rs":
                t = "#![allow(warnings)]\n" + t + "\npub mod collections;\n"
            open(d + "/" + f, "w").write(t)
    shutil.copy(os.path.join(os.path.dirname(dst), "hashed.rs"), dst + "/collections.rs")


def std_uses(m):
    """use std::{a, b::{c, d}}; as one use for each of a, b."""
    out, depth, cur = [], 0, ""
    for c in m.group(1):
        depth += (c == "{") - (c == "}")
        if c == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    return " ".join("use std::%s;" % x.strip() for x in out + [cur] if x.strip())


def leave_out(path, text):
    """Generated definitions that do not compile are left out of the (copied) harness; the check then cannot pass,
    but the others may still show a violation. -> their names"""
    lines = open(path).read().split("\n")
    starts = [(i, l[6:]) for i, l in enumerate(lines) if l.startswith("// @@ ")]
    bad = set()
    for block in re.split(r"\n(?=error|warning)", text):
        if block.startswith("error"):
            for n in re.findall(r"--> src/mx_def\.rs:(\d+):", block):
                bad |= {[s for s in starts if s[0] < int(n)][-1][1]} if int(n) > starts[0][0] else {"?"}
    if not bad or bad & {"?", "end"} or len(bad) > len(starts) // 2:
        return []  # not a matter of single definitions
    keep, cur = [], None
    for l in lines:
        if l.startswith("// @@ "):
            cur = l[6:]
        if cur not in bad and l.strip() not in bad:
            keep.append(l)
    open(path, "w").write("\n".join(keep))
    return sorted(bad)


# Functions of the harness (`stubs` in sym.rs) that take the place of these of libc, and of the process's arguments
# (`redirect` in rsym/src/ll.rs).
LIBC = ["write", "exit", "__errno_location", "pthread_key_create", "pthread_setspecific", "getrandom", "malloc", "free"]
STUBS = ["__stub_" + n for n in LIBC + ["args_os"]]


def link(tdir, bcs, std, entries, work):
    b = tdir + "/bin/"
    run([b + "llvm-link"] + bcs + std + ["-o", work + "/all.bc"])
    run([b + "opt", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(entries + STUBS),
         work + "/all.bc", "-o", work + "/t.bc"])
    run([b + "llvm-dis", work + "/t.bc", "-o", work + "/t.ll"])
    t = open(work + "/t.ll").read()
    stubs = "|".join(n for n in re.findall(r"\ndefine [^\n]*@__stub_(\w+)\(", t) if n in LIBC)
    if stubs:
        t = re.sub(r"\ndeclare [^\n]*@(%s)\([^\n]*" % stubs, "", t)
        open(work + "/t.ll", "w").write(re.sub(r"@(%s)(?![\w.$])" % stubs, r"@__stub_\1", t))
    return work + "/t.ll"


def message(prop, ident):
    """The text of a check from its id (line number; shared files are offset)."""
    if ident is None:
        return ""
    files = ["common.rs", "model.rs"] if ident > 100000 else [prop.lower() + ".rs"]
    for f in files:
        try:
            lines = open(os.path.join(V, "harness/src", f)).read().split("\n")
            t = " ".join(x.strip() for x in lines[ident % 100000 - 1: ident % 100000 + 4])
            m = re.search(r'check!\(.*?, "((?:[^"\\]|\\.)*)"\s*\)', t)
            if m and "check!" in lines[ident % 100000 - 1]:
                return m.group(1)
        except (OSError, IndexError):
            pass
    return "check %d" % ident


def replay_native(exe, scen, hexs, timeout=20):
    """-> (outcome, text); outcome in held/check/discarded/panic/hang"""
    try:
        r = subprocess.run([exe, scen, hexs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout, env=dict(ENV, REPLAY_VERBOSE="1"))
    except subprocess.TimeoutExpired:
        return "hang", "no end within %d s" % timeout
    return {0: "held", 3: "check", 4: "discarded"}.get(r.returncode, "panic"), r.stdout[-3000:]


def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    engine = build_engine()
    tdir, std = std_bitcode()
    if "--setup" in sys.argv:
        return 0
    cfg = json.load(open(os.path.join(V, "checks.json"))).get(prop, {})
    work = tempfile.mkdtemp(prefix="run-", dir=CACHE)
    try:
        return decide(prop, tier, seed, engine, tdir, std, cfg, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, tier, seed, engine, tdir, std, cfg, work, t0):
    bcs, exe, gone = build_harness(prop.lower(), work, cfg.get("features", ["help"]))
    table = [l.split("\t") for l in run([exe, "--list"]).splitlines()]
    table = [t for t in table if t[1] == "quick" or tier == "thorough"]
    bounds = {t[0]: t[2] for t in table}
    names = [t[0] for t in table]
    only = os.environ.get("CHECK_ONLY")
    if only:
        names = [n for n in names if n in only.split(",")]
    ll = link(tdir, bcs, std, names, work)
    t_build = time.time() - t0
    budget = int(os.environ.get("CHECK_SECONDS", 0)) or (600 if tier == "quick" else 700)
    out = work + "/out.json"
    env = dict(ENV)
    env.setdefault("RSYM_SAMPLES", "25")
    for k, v in cfg.get("env", {}).items():
        env.setdefault(k, str(v))
    r = subprocess.run([engine, ll, out, str(NCPU), str(budget)] + names, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                       timeout=budget + 150)
    if r.returncode != 0:
        die("the executor failed (%d): %s" % (r.returncode, r.stdout[-3000:]))
    res = json.load(open(out))
    if os.environ.get("CHECK_KEEP"):
        shutil.copy(out, os.environ["CHECK_KEEP"])

    # Counterexamples, and the witnesses of paths the executor could not follow, go to the native build.
    confirmed, mismatched = [], []
    for v in res["violations"]:
        o, txt = replay_native(exe, v["scenario"], v["bytes"])
        m = re.search(r"CHECK-FAILED (\d+)", txt)
        rec = dict(v, native=o, native_output=txt,
                   message=message(prop, int(m.group(1))) if m else (v["detail"] if o != "hang" else "does not end"))
        (mismatched if o in ("held", "discarded") else confirmed).append(rec)
    for u in res["unsupported"]:
        o, txt = replay_native(exe, u["scenario"], u["bytes"])
        if o not in ("held", "discarded"):
            m = re.search(r"CHECK-FAILED (\d+)", txt)
            confirmed.append(dict(scenario=u["scenario"], kind="unsupported-path witness", detail=u["what"], bytes=u["bytes"],
                                  native=o, native_output=txt, message=message(prop, int(m.group(1))) if m else o))

    # Finished paths: same emissions and marks natively?
    inp = "".join("%s %s\n" % (s["scenario"], s["bytes"]) for s in res["samples"])
    validated, bad = 0, []
    try:
        r = subprocess.run([exe, "--batch"], input=inp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=120)
        oks = [l for l in r.stdout.splitlines() if l.startswith("ok ")]
    except subprocess.TimeoutExpired:
        oks = []
    for i, s in enumerate(res["samples"]):
        want = "ok %s %s true" % (s["emits"], s["reach"])
        if i < len(oks) and oks[i] == want:
            validated += 1
        elif i < len(oks):
            bad.append((s["scenario"], s["bytes"], want[:200], oks[i][:200]))
        else:
            bad.append((s["scenario"], s["bytes"], want[:200], "native run stopped"))
            break

    known, news = [], []
    kf = []
    try:
        kf = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
    except OSError:
        pass
    for c in confirmed:
        k = [f for f in kf if f["property"] == prop and f["scenario"] == c["scenario"]
             and f["message"] == c["message"] and re.fullmatch(f.get("bytes", ".*"), c["bytes"])]
        (known if k else news).append(c)

    sc = res["scenarios"]
    tot = lambda k: sum(s[k] for s in sc)
    marks = set()
    src = open(os.path.join(V, "harness/src", prop.lower() + ".rs")).read().split("\n")
    for i, l in enumerate(src):
        if re.search(r"\breach!\(\)", l) and not l.strip().startswith("//") and "deep-only" not in l:
            marks.add(i + 1)
    reached = {int(k) for s in sc for k in s["reach"]}
    unreached = sorted(marks - reached)
    complete = not gone and not tot("unexplored") and not tot("limits") and not res["unsupported"] and not tot("unknown")
    ours = [f for f in res["functions"] if re.search(r"palc|harness|os_str_bytes", f)]
    samples = [dict(scenario=s["scenario"], input_hex=s["bytes"], emits=s["emits"][:40]) for s in res["samples"][:: max(1, len(res["samples"]) // 12)]][:12]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("decisions"),
            "traces_validated_against_impl": validated, "samples": samples,
            "exhaustive": complete,
            "method": "symbolic execution of the LLVM IR rustc makes of /repo, the harness and core/alloc/std; every branch on symbolic data and every assertion decided by Z3",
            "paths_returned": tot("returned"), "paths_discarded_by_assumptions": tot("discarded"),
            "forks": tot("forks"), "instructions": tot("steps"),
            "assertions_met": tot("checks"), "assertions_needing_solver": tot("checks_symbolic"),
            "queries": tot("queries"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"), "queries_unknown": tot("unknown"),
            "query_cache_hits": tot("cache_hits"), "solver_s": round(tot("solver_s"), 3), "solver": res["z3"],
            "scenarios": [dict(name=s["name"], bounds=bounds[s["name"]], paths=s["paths"], discarded=s["discarded"], unexplored=s["unexplored"],
                               decisions=s["decisions"], queries=s["queries"], cache_hits=s["cache_hits"], solver_s=s["solver_s"],
                               checks=s["checks"], checks_symbolic=s["checks_symbolic"], max_symbolic_bytes=s["max_symbolic_bytes"]) for s in sc],
            "functions_encoded_of_repo_and_harness": ours[:400], "functions_encoded_total": len(res["functions"]),
            "vacuity_marks": len(marks), "vacuity_marks_reached": len(marks & reached),
            "unsupported_paths": [dict(what=u["what"], paths=u["paths"]) for u in res["unsupported"]],
            "definitions_not_compiling": gone, "build_s": round(t_build, 1), "known_findings_seen": len(known),
        },
        "assumptions": [
            "bounds: those of each scenario; nothing is claimed beyond them",
            "rustc's LLVM IR at opt-level 2 with overflow checks and debug assertions stands for the source; unwinding is abort",
            "allocation does not fail; hash seeds, clock, environment and I/O are not reachable from the parser",
            "trusted: rustc, the executor (its finished paths are compared with native runs), Z3",
        ] + cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(news),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)

    for s in sc:
        print("%-28s paths %8d  decisions %9d  queries %7d  solver %6.1fs%s" % (
            s["name"], s["paths"], s["decisions"], s["queries"], s["solver_s"], "  UNEXPLORED %d" % s["unexplored"] if s["unexplored"] else ""))
    print("%s %s: %d paths, %d assertions (%d by solver), %d samples agree natively, build %.1fs total %.1fs%s" % (
        prop, tier, tot("paths"), tot("checks"), tot("checks_symbolic"), validated, t_build, time.time() - t0, "" if complete else "  NOT EXHAUSTIVE within the time"))
    for u in res["unsupported"]:
        print("WARNING not followed:", u["what"], "paths", u["paths"])
    for c in known:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, c["scenario"], c["message"]))
    if news:
        rdir = os.path.join(V, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, prop + ".json")
        json.dump({"property": prop, "how": "harness/src/replay.rs: replay SCENARIO HEX", "counterexamples": news}, open(path, "w"), indent=1)
        for c in news[:6]:
            print("counterexample: %s [%s] %s\n  input %s\n  native: %s" % (c["scenario"], c["kind"], c["message"], c["bytes"], c["native_output"].strip()[-700:]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if mismatched:
        for c in mismatched[:4]:
            print("NOT REPRODUCED:", c["scenario"], c["kind"], c["detail"], c["bytes"], c["native_output"][-300:])
        die("a counterexample does not reproduce natively: the encoding is wrong")
    if bad:
        for b in bad[:4]:
            print("DISAGREES:", *b)
        die("a finished path disagrees with its native run")
    if gone:
        die("definitions that do not compile: " + " ".join(gone))
    if complete and unreached and not only:
        die("vacuous: marks at lines %s of %s.rs were never reached" % (unreached, prop.lower()))
    return 0


if __name__ == "__main__":
    sys.exit(main())
