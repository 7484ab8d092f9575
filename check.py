#!/usr/bin/env python3
"""Build one property's harness from /repo's current working tree and run it.

  check.py C05                 run with VERIF_SEED / VERIF_TIER from the environment
  check.py C05 --replay F      re-run one saved case
  check.py --build C05 C06     only build
  check.py --all               every property of MANIFEST.json, one after another
Any other argument is passed to the harness (--cases N, --secs S, --seed N, --case I).
"""
import fcntl, glob, json, os, subprocess, sys

V = os.path.dirname(os.path.abspath(__file__))
SRC = os.environ.get("KV_REPO", "/repo")
B = os.environ.get("KV_BUILD", os.path.join(V, "build"))
THOROUGH = os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv
REPO = f"{B}/tree"  # mirror of the repository's sources, updated by content


def mirror():
    want = {}
    for d in ("include", "src", "fcontext/src"):
        for root, _, files in os.walk(f"{SRC}/{d}"):
            for f in files:
                p = os.path.join(root, f)
                want[os.path.relpath(p, SRC)] = p
    for root, _, files in os.walk(REPO):
        for f in files:
            p = os.path.join(root, f)
            if os.path.relpath(p, REPO) not in want:
                os.remove(p)
    for rel, p in want.items():
        data = open(p, "rb").read()
        q = f"{REPO}/{rel}"
        if os.path.exists(q) and open(q, "rb").read() == data:
            continue
        os.makedirs(os.path.dirname(q), exist_ok=True)
        open(q, "wb").write(data)


INC = f"-I{REPO}/include -I{REPO}/fcontext/src -I{V}/engine -I{V}/engine/cfg -I{V}/props"
CFG = f"-include {V}/engine/cfg/kasync_config.h"
COMMON = "-g1 -fno-omit-frame-pointer -Wno-invalid-offsetof -w -pthread"
ASAN = "-fsanitize=address"
OUTLINE = "--param asan-instrumentation-with-call-threshold=0"
# "fast": every access and atomic operation calls out (own runtime in ds.cc), no memory checking
TSAN = "-fsanitize=thread --param tsan-instrument-func-entry-exit=0"


def prop_files():
    return {os.path.basename(p)[:3]: p for p in glob.glob(f"{V}/props/C*.cc")}


def head(path):
    """// kv: key=value ... options on the first lines of a property file"""
    opt = {}
    with open(path) as f:
        for line in f:
            if line.startswith("// kv:"):
                for t in line[6:].split():
                    k, _, v = t.partition("=")
                    opt[k] = v or "1"
            elif not line.startswith("//"):
                break
    return opt


def defines(variant):
    """"bio": the memory-BIO TLS transport; "rel": a release build (no assertions, no debugging fields)"""
    return ("-DKV_SSL_BIO " if "bio" in variant else "") + ("-DNDEBUG" if "rel" in variant else "")


def variants(opt, extra=()):
    vs = opt.get("variant", "std").split(",")
    f = extra[extra.index("--replay") + 1] if "--replay" in extra else None
    rel = any("fastrel" in a for a in extra) or (f and "build: fastrel" in open(f, errors="replace").read())
    if rel or THOROUGH and "norel" not in opt and any(v.startswith("fast") for v in vs):
        vs.append("fastrel:0.15")
    return vs


def ninja_file(props, extra=()):
    out = [f"builddir = {B}",
           "rule cxx\n command = g++ $flags -MMD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc\n description = CXX $in",
           "rule link\n command = g++ $flags -pthread $in -o $out -lssl -lcrypto -ldl -rdynamic\n description = LINK $out"]
    srcs = sorted(glob.glob(f"{REPO}/src/*.c"))
    asm = [f"{REPO}/fcontext/src/asm/{n}_x86_64_sysv_elf_gas.S" for n in ("make", "jump", "ontop")]
    objects = {}

    def variant(name):
        if name in objects:
            return objects[name]
        d = f"{B}/repo-{name}"
        defs = defines(name)
        san = TSAN if "fast" in name else f"{ASAN} {OUTLINE}"
        fl = f"-x c++ -std=gnu++14 -O1 {COMMON} {san} {CFG} {defs} {INC}"
        objs = []
        for s in srcs:
            o = f"{d}/{os.path.basename(s)}.o"
            out.append(f"build {o}: cxx {s}\n flags = {fl}")
            objs.append(o)
        for s in asm:
            o = f"{d}/{os.path.basename(s)}.o"
            out.append(f"build {o}: cxx {s}\n flags = -g1 -DBOOST_CONTEXT_EXPORT=")
            objs.append(o)
        for n in ("shim",):
            o = f"{d}/{n}.o"
            out.append(f"build {o}: cxx {V}/engine/{n}.cc\n flags = -std=gnu++17 -O1 {COMMON} {san} {CFG} {defs} {INC}")
            objs.append(o)
        objects[name] = objs
        return objs

    eng = []
    for n in ("pbt", "ds", "io"):
        o = f"{B}/engine/{n}.o"
        out.append(f"build {o}: cxx {V}/engine/{n}.cc\n flags = -std=gnu++17 -O2 {COMMON} {INC}")
        eng.append(o)
    pf = prop_files()
    for p in props:
        opt = head(pf[p])
        for v in variants(opt, extra):
            v = v.split(":")[0]
            objs = variant(v)
            exe = f"{B}/bin/{p}-{v}"
            asan = "" if "fast" in v else ASAN
            o = f"{exe}.o"
            defs = defines(v)
            out.append(f"build {o}: cxx {pf[p]}\n flags = -std=gnu++17 -O1 {COMMON} {asan} {CFG} {defs} {INC}")
            out.append(f"build {exe}: link {o} {' '.join(eng)} {' '.join(objs)}\n flags = {asan}")
    return "\n".join(out) + "\n"


def build(props, extra=()):
    os.makedirs(B, exist_ok=True)
    with open(f"{B}/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        mirror()
        txt = ninja_file(props, extra)
        nf = f"{B}/{'-'.join(props) if len(props) < 4 else 'all'}.ninja"
        if not os.path.exists(nf) or open(nf).read() != txt:
            open(nf, "w").write(txt)
        r = subprocess.run(["ninja", "-f", nf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-6000:])
            print("BUILD FAILED")
            sys.exit(3)


def run(p, extra):
    opt = head(prop_files()[p])
    os.makedirs(f"{V}/evidence", exist_ok=True)
    os.makedirs(f"{B}/replay", exist_ok=True)
    vs = variants(opt, extra)
    rc = 0
    for a in extra:  # --variant=NAME: only that build
        if a.startswith("--variant="):
            vs = [v for v in vs if v.split(":")[0] == a[10:]]
    extra = [a for a in extra if not a.startswith("--variant=")]
    if "--replay" in extra:  # a replay file names the build it came from
        f = extra[extra.index("--replay") + 1]
        b = [l.split()[1] for l in open(f, errors="replace") if l.startswith("build: ")]
        vs = [v for v in vs if v.split(":")[0] in b] or vs
    for i, v in enumerate(vs):
        v, _, share = v.partition(":")
        exe = f"{B}/bin/{p}-{v}"
        args = [exe, "--known", f"{V}/known_findings.txt", "--replay-dir", f"{B}/replay", "--build", v]
        if "--replay" not in extra and "--case" not in extra:
            ev = f"{V}/evidence/{p}.json" if i == 0 else f"{B}/evidence-{p}-{v}.json"
            args += ["--evidence", ev]
        if share:
            args += ["--share", share]
        env = dict(os.environ)
        if "fast" in v:
            env["MALLOC_PERTURB_"] = "165"
        rc = subprocess.call(args + extra, env=env)
        if rc:
            break
        if i > 0 and "--evidence" in args:
            # fold the other build variant's run into the one evidence file
            a, b = json.load(open(f"{V}/evidence/{p}.json")), json.load(open(ev))
            ca, cb = a["coverage"], b["coverage"]
            for k in ("evaluations", "distinct_nontrivial", "discarded", "failures_not_reproduced"):
                ca[k] += cb[k]
            for k, n in cb["classes"].items():
                ca["classes"][v + ": " + k] = n
            ca["samples"] += cb["samples"][:2]
            a["wall_s"] = round(a["wall_s"] + b["wall_s"], 1)
            json.dump(a, open(f"{V}/evidence/{p}.json", "w"), indent=1)
    return rc


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        props = a[1:] or sorted(prop_files())
        build(props)
        return 0
    if a and a[0] == "--all":
        man = json.load(open(f"{V}/MANIFEST.json"))
        ids = [c["property"] for c in man["checks"]]
        build(ids, a[1:])
        bad = 0
        for i in ids:
            r = run(i, a[1:])
            print(f"== {i} exit {r}")
            bad |= r != 0
        return int(bad)
    p = a[0]
    build([p], a[1:])
    return run(p, a[1:])


sys.exit(main())
