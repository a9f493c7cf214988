#!/usr/bin/env python3
"""Runs the check of one property: python3 check.py C01 [--tier quick|thorough] [--replay FILE]

Builds the library sources of /repo's working tree together with the property's harness (nothing is taken from
/repo/_build), lets the harness enumerate its space, writes evidence/<id>.json, and exits 0 (held on everything explored)
or 1 (with a VIOLATION line).  Exit 2 is an error of the check itself (for example: the tree does not compile)."""
import argparse, glob, hashlib, json, os, re, subprocess, sys, time, array, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = "/usr/bin/clang++-14"
BASE = ("-nostdinc++ -cxx-isystem /usr/include/c++/12 -cxx-isystem /usr/include/x86_64-linux-gnu/c++/12 -std=c++20 "
        "-Wall -Wno-unused -fPIC -I{stubs} -I{repo} -I{gen} -I/usr/include/eigen3 -I{lib}")
LIBS = "-lfmt -lglog -lprotobuf -lm -lstdc++ -luuid -pthread -ldl"
CONFIGS = {
    "plain": ("-O1", ""),
    "opt": ("-O2", ""),
    "ubsan": ("-O1 -g1 -fsanitize=undefined -fno-sanitize-recover=all", "-fsanitize=undefined"),
    "asan": ("-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer",
             "-fsanitize=address,undefined"),
    # ThreadSanitizer's instrumentation only; the callbacks are implemented by lib/sched.cc (no TSan runtime is linked).
    "sched": ("-O1 -g1 -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0",
              "-rdynamic -Wl,--wrap=memcpy -Wl,--wrap=memmove -Wl,--wrap=memset"),
}
ENV = {"ASAN_OPTIONS": "detect_leaks=0:handle_abort=0:abort_on_error=0:exitcode=0:allocator_may_return_null=1:detect_stack_use_after_return=1",
       "UBSAN_OPTIONS": "print_stacktrace=0:exitcode=0", "LC_ALL": "C.UTF-8", "GLOG_minloglevel": "3"}

from checks import CHECKS  # noqa: E402


def sources():
    keep = []
    for root, dirs, files in os.walk(os.path.join(REPO, "resim")):
        rel = os.path.relpath(root, REPO)
        parts = rel.split(os.sep)
        if any(x in ("examples", "testing", "third_party", "toolchain", "view_server") for x in parts):
            continue
        for f in files:
            if f.endswith(".cc") and "test" not in f:
                keep.append(os.path.join(rel, f))
    protos = []
    for root, dirs, files in os.walk(os.path.join(REPO, "resim")):
        rel = os.path.relpath(root, REPO)
        for f in files:
            if f.endswith(".proto") and "testing" not in rel.split(os.sep):
                protos.append(os.path.join(rel, f))
    return sorted(keep), sorted(protos)


def has_main(path):
    with open(os.path.join(REPO, path), errors="replace") as f:
        return re.search(r"^\s*int\s+main\s*\(", f.read(), re.M) is not None


def build(pid, spec):
    """The executables of the check: one per part (parts differ in their compilation)."""
    if "parts" in spec:
        return [build_part(pid + "-" + p["name"], p) for p in spec["parts"]]
    return [build_part(pid, spec)]


def build_part(pid, spec):
    cfg = spec.get("config", "plain")
    bdir = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build")
    cdir = os.path.join(bdir, cfg)
    gen = os.path.join(bdir, "gen")
    os.makedirs(cdir, exist_ok=True)
    os.makedirs(gen, exist_ok=True)
    cflags, lflags = CONFIGS[cfg]
    base = BASE.format(stubs=os.path.join(VERIF, "stubs"), repo=REPO, gen=gen, lib=os.path.join(VERIF, "lib"))
    pbflags = "-O1" if cfg in ("plain", "opt", "sched") else cflags
    ccs, protos = sources()
    ccs = [c for c in ccs if not has_main(c)]
    n = ["ninja_required_version = 1.10", "builddir = " + cdir,
         "rule cxx", "  command = %s %s $flags -MD -MF $out.d -c $in -o $out" % (CXX, base), "  depfile = $out.d", "  deps = gcc",
         "rule protoc", "  command = cd %s && protoc -I. --cpp_out=%s $rel" % (REPO, gen),
         "rule ar", "  command = rm -f $out && ar rcs $out @$out.rsp", "  rspfile = $out.rsp", "  rspfile_content = $in",
         "rule link", "  command = %s $in -o $out $lflags %s" % (CXX, LIBS)]
    objs, hdrs = [], []
    for pr in protos:
        stem = pr[:-6]
        cc, hh = os.path.join(gen, stem + ".pb.cc"), os.path.join(gen, stem + ".pb.h")
        n += ["build %s %s: protoc %s" % (cc, hh, os.path.join(REPO, pr)), "  rel = " + pr]
        hdrs.append(hh)
        o = os.path.join(cdir, "pb", stem + ".pb.o")
        n += ["build %s: cxx %s || pbheaders" % (o, cc), "  flags = " + pbflags]
        objs.append(o)
    n.append("build pbheaders: phony " + " ".join(hdrs))
    for c in ccs:
        o = os.path.join(cdir, "repo", c[:-3] + ".o")
        # Some translation units rely on templates that others instantiate implicitly: such functions must not be inlined.
        n += ["build %s: cxx %s || pbheaders" % (o, os.path.join(REPO, c)), "  flags = " + cflags + " -finline-hint-functions"]
        objs.append(o)
    lib = os.path.join(cdir, "libresim.a")
    n.append("build %s: ar %s" % (lib, " ".join(objs)))
    hobjs = []
    for h in spec["sources"]:
        o = os.path.join(cdir, pid + "_" + os.path.basename(h).replace(".cc", ".o"))
        fl = cflags if not h.startswith("lib/") else "-O1"
        n += ["build %s: cxx %s || pbheaders" % (o, os.path.join(VERIF, h)), "  flags = %s %s" % (fl, spec.get("flags", ""))]
        hobjs.append(o)
    exe = os.path.join(cdir, pid)
    n.append("build %s: link %s %s" % (exe, " ".join(hobjs), lib))
    n.append("  lflags = %s %s" % (lflags, spec.get("lflags", "")))
    nf = os.path.join(cdir, "build-%s.ninja" % pid)
    with open(nf, "w") as f:
        f.write("\n".join(n) + "\n")
    r = subprocess.run(["ninja", "-f", nf, "-j", str(os.cpu_count() or 8), exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
        print("ERROR: build failed for", pid)
        sys.exit(2)
    return exe


def run_harness(exes, spec, tier, only=None):
    tot, union = None, set()
    for exe, part in zip(exes, spec.get("parts", [spec])):
        r, u = run_part(exe, part, tier, only)
        union |= u
        if tot is None:
            tot = r
            continue
        for k in ("transitions", "traces", "violation_count", "violations", "samples"):
            tot[k] += r[k]
        tot["exhaustive"] &= r["exhaustive"]
        tot["bounds"].update(r["bounds"])
        for k, c in r["counters"].items():
            tot["counters"][k] = tot["counters"].get(k, 0) + c
    tot["states"] = len(union)
    return tot


def run_part(exe, spec, tier, only=None):
    shards = spec.get("shards", 1)
    if isinstance(shards, dict):
        shards = shards[tier]
    outdir = os.path.join(os.path.dirname(exe), "out-%s-%d" % (os.path.basename(exe), os.getpid()))
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    procs = []
    env = dict(os.environ)
    env.update(ENV)
    env.pop("HOME", None)
    env["HOME"] = outdir
    for i in range(shards):
        out = os.path.join(outdir, "s%d.json" % i)
        sd = os.path.join(outdir, "scratch%d" % i)
        os.makedirs(sd)
        e = dict(env)
        e["HOME"] = sd
        e["MC_SCRATCH"] = sd
        cmd = [exe, "--tier", tier, "--out", out, "--shard", "%d/%d" % (i, shards)]
        if only:
            cmd += ["--only", only]
        log = open(os.path.join(outdir, "s%d.log" % i), "w")
        procs.append((subprocess.Popen(cmd, env=e, stdout=log, stderr=subprocess.STDOUT, cwd=sd), out, log.name))
    limit = time.time() + (780 if tier == "quick" else 6 * 3600)
    results = []
    for p, out, log in procs:
        try:
            p.wait(timeout=max(1, limit - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        if os.path.exists(out):
            r = json.load(open(out))
        else:
            tail = open(log, errors="replace").read()[-3000:]
            r = None
            if p.returncode in (3, -4, -6, -7, -8, -11) or re.search(r"ERROR: AddressSanitizer|AddressSanitizer:|runtime error:|terminate called", tail):
                # The code under test took the process down without a report.
                r = dict(ending="died", transitions=0, traces=0, violation_count=1, exhaustive=False, samples=[], bounds={}, counters={},
                         violations=[dict(key="crash", trace="(unknown: the process died while reporting)", detail=tail[-1500:])])
            else:
                print("ERROR: no result from", p.args, "exit", p.returncode)
                print(tail)
        if r is not None and r["ending"] == "died":
            r["log"] = open(log, errors="replace").read()[-4000:]
        results.append((r, out))
    if any(r is None for r, _ in results):
        shutil.rmtree(outdir, ignore_errors=True)
        sys.exit(2)
    tot = dict(transitions=0, traces=0, states=0, exhaustive=True, violations=[], violation_count=0, samples=[], bounds={}, counters={})
    union = set()
    for r, out in results:
        tot["transitions"] += r["transitions"]
        tot["traces"] += r["traces"]
        tot["violation_count"] += r["violation_count"]
        tot["exhaustive"] &= r["exhaustive"] and r["ending"] == "done"
        for v in r["violations"]:
            if "log" in r and v["key"] in ("sanitizer", "crash"):
                v["log"] = r["log"]
            tot["violations"].append(v)
        for s in r["samples"]:
            if len(tot["samples"]) < 8:
                tot["samples"].append(s)
        tot["bounds"].update(r["bounds"])
        for k, c in r["counters"].items():
            tot["counters"][k] = tot["counters"].get(k, 0) + c
        a = array.array("Q")
        b = open(out + ".states", "rb").read() if os.path.exists(out + ".states") else b""
        a.frombytes(b)
        union.update(a)
    shutil.rmtree(outdir, ignore_errors=True)
    return tot, union


def known(pid):
    res = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3).strip()
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    a = ap.parse_args()
    pid, tier = a.property, a.tier if a.tier in ("quick", "thorough") else "quick"
    spec = CHECKS[pid]
    t0 = time.time()
    exes = build(pid, spec)
    tb = time.time() - t0
    if a.replay:
        rep = json.load(open(a.replay))
        r = run_harness(exes, spec, rep.get("tier", tier), rep.get("trace"))
        same = [v for v in r["violations"] if v["key"] == rep["key"]]
        for v in same:
            print("reproduced:", json.dumps(v))
        print("REPRODUCED" if same else "NOT REPRODUCED")
        sys.exit(1 if same else 0)
    r = run_harness(exes, spec, tier)
    kn = known(pid)
    fresh, seen = [], []
    for v in r["violations"]:
        (seen if v["key"] in kn else fresh).append(v)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED") or 1), "level": spec["level"],
        "coverage": {
            "states": r["states"], "transitions": r["transitions"], "traces_validated_against_impl": r["traces"],
            "exhaustive": r["exhaustive"], "samples": r["samples"] or ["(none)"], "bounds": r["bounds"],
            "explanation": spec["explanation"],
        },
        "assumptions": spec.get("assumptions", []), "violations": len(fresh), "wall_s": round(time.time() - t0, 2),
    }
    ev["coverage"].update({"counter_" + k: c for k, c in r["counters"].items()})
    ev["coverage"]["build_s"] = round(tb, 1)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in sorted({v["key"] for v in seen}):
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[k]))
    print("%s %s: states=%d transitions=%d traces=%d exhaustive=%s wall=%.1fs (build %.1fs)" % (
        pid, tier, r["states"], r["transitions"], r["traces"], r["exhaustive"], time.time() - t0, tb))
    if fresh:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(fresh[:5]):
            path = os.path.join(rdir, "%s-%d.json" % (pid, i))
            v = dict(v, property=pid, tier=tier, command="python3 check.py %s --replay %s" % (pid, path))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("  [%s] %s\n      %s" % (v["key"], v["trace"][:1500], v["detail"][:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    if r["states"] == 0 or r["traces"] == 0:
        print("ERROR: nothing explored")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
