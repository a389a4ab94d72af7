#!/usr/bin/env python3
"""Builds and runs one check against /repo's working tree.

  run.py <ID> [quick|thorough]            run a check (exit 0 held, 1 violation, 2 the check could not run)
  run.py replay <ID> <scenario> <choices> [tier]   re-execute one recorded path on the current tree
  run.py list                             list the checks
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402

COMPONENTS = ["common", "frames", "cameras", "pipeline", "detector", "matcher", "tracker", "triangulation",
              "calibration", "geometric_vision", "visualization"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class BuildError(Exception):
    pass


def must(cmd):
    r = sh(cmd)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def build(cid, c, bdir):
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    mcx = c["engine"] == "mcx"
    inc = ["-I" + V + "/mcx", "-I" + V + "/mcx/standin", "-I" + V + "/harness/" + ("mc" if mcx else "seq"),
           "-I" + V + "/harness"]
    if c.get("kindr"):
        inc.append("-I" + V + "/harness/standin")
    inc += ["-I%s/aslam_cv_%s/include" % (REPO, p) for p in COMPONENTS]
    inc += ["-I" + bdir + "/proto", "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/opencv4"]
    if c.get("proto"):
        os.makedirs(bdir + "/proto/aslam/common")
        src = REPO + "/aslam_cv_common/proto"
        must(["protoc", "-I" + src, "--cpp_out=" + bdir + "/proto", src + "/aslam/common/id.proto"])
    flags = ["-std=gnu++14" if not c.get("std") else "-std=" + c["std"], "-g", "-mssse3", "-w",
             "-DENABLE_TIMING=" + str(c.get("timing", 1)), "-DENABLE_STATISTICS=1"]
    if mcx:
        flags += ["-O1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
    else:
        flags += ["-O1", "-fno-omit-frame-pointer"]
        flags += c.get("san", ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"])
        flags += ["-fno-sanitize=vptr"]
    flags += c.get("flags", [])
    srcs = [V + "/harness/" + s for s in c["harness"]] + [REPO + "/" + s for s in c.get("repo", [])]
    if c.get("proto"):
        srcs.append(bdir + "/proto/aslam/common/id.pb.cc")
    redefine = []
    if mcx:
        for f in ("memcpy", "memmove", "memset", "memcmp"):
            redefine += ["--redefine-sym", "%s=mcx_%s" % (f, f)]

    def one(s):
        o = bdir + "/" + os.path.relpath(s, "/").replace("/", "_") + ".o"
        must(["g++"] + flags + c.get("srcflags", {}).get(os.path.relpath(s, REPO), []) + inc + ["-c", s, "-o", o])
        if mcx:
            must(["objcopy"] + redefine + [o])
        return o

    def engine():
        must(["g++", "-std=gnu++17", "-O2", "-g", "-fPIC", "-shared", "-fno-threadsafe-statics", "-o",
              bdir + "/libmcx.so", V + "/mcx/mcx.cc", "-ldl"])

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(one, s) for s in srcs]
        if mcx:
            fs.append(ex.submit(engine))
        objs = [f.result() for f in fs]
    objs = [o for o in objs if o]
    exe = bdir + "/" + cid
    if mcx:
        must(["g++", "-no-pie", "-o", exe] + objs + ["-L" + bdir, "-lmcx", "-Wl,-rpath," + bdir] + c.get("libs", []) +
             ["-lpthread"])
    else:
        must(["g++", "-o", exe] + c.get("san", ["-fsanitize=address,undefined"]) + objs + c.get("libs", []) + ["-lpthread"])
    return exe


def environ():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=4000:detect_stack_use_after_return=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["OMP_NUM_THREADS"] = "1"
    e["OPENCV_OPENCL_RUNTIME"] = "disabled"
    return e


def symbolize(exe, trace):
    pcs = sorted(set(re.findall(r"0x4[0-9a-f]{5,}", trace)))
    if not pcs:
        return trace
    out = sh(["addr2line", "-C", "-s", "-f", "-e", exe] + pcs).stdout.splitlines()
    names = {}
    for i, p in enumerate(pcs):
        if 2 * i + 1 < len(out):
            names[p] = "%s (%s)" % (re.sub(r"\(.*", "", out[2 * i])[:80], out[2 * i + 1].split(" ")[0])
    return re.sub(r"0x4[0-9a-f]{5,}", lambda m: names.get(m.group(0), m.group(0)) + ";", trace)


def known_findings(cid):
    """known: property=<id> scenario=<name> key=<key> | <what fails>"""
    out = []
    p = V + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) scenario=(\S+) key=(.*?) \| (.*)", l.strip())
            if m and m.group(1) == cid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def execute(cid, c, tier):
    t0 = time.time()
    bdir = V + "/build/" + cid
    exe = build(cid, c, bdir)
    build_s = time.time() - t0
    rdir = V + "/evidence/replay"
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(cid + "-"):
            os.unlink(os.path.join(rdir, f))
    out = bdir + "/result.json"
    scratch = bdir + "/scratch"
    os.makedirs(scratch)
    cap = c.get("cap", 500) if tier == "quick" else 3000
    cmd = [exe, "--tier", tier, "--out", out, "--dir", scratch, "--jobs", "8", "--cap", str(cap)]
    kn = known_findings(cid)
    if c["engine"] == "seqx" and kn:
        with open(bdir + "/known", "w") as f:
            f.write("".join("%s %s\n" % (s, k) for s, k, _ in kn))
        cmd += ["--known", bdir + "/known"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=environ(),
                       cwd=scratch)
    if not os.path.exists(out):
        raise BuildError("the checker died (%d)\n%s" % (r.returncode, r.stdout[-4000:]))
    res = json.load(open(out), strict=False)["scenarios"]
    violations, known_hit, errors, capped = [], [], [], []
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
    table = []
    for s in res:
        if c["engine"] == "mcx":
            n = s.get("schedules", 0)
            fails = [{"key": s["kind"], "msg": s["msg"], "choices": s["choices"], "labels": s["trace"]}] if s["status"] in (
                "violation", "crash") else []
            knowns = []
            for f in list(fails):
                for (ks, kk, _) in kn:
                    if ks == s["scenario"] and kk == f["key"] + ":" + f["msg"]:
                        knowns.append(f)
                        fails.remove(f)
                        break
            row = {k: s.get(k) for k in ("scenario", "what", "status", "schedules", "pruned", "states", "transitions", "threads",
                                         "preemptions", "spurious", "timeouts", "max_choice_depth", "distinct_outcomes", "wall_s")}
        else:
            n = s.get("paths", 0)
            fails, knowns = s["fails"], s["knowns"]
            row = {k: s.get(k) for k in ("scenario", "what", "status", "paths", "pruned", "states", "transitions", "checks",
                                         "wall_s")}
            for x in s["samples"][:2]:
                cov["samples"].append(s["scenario"] + ": " + x[:300])
        cov["states"] += s.get("states") or 0
        cov["transitions"] += s.get("transitions") or 0
        cov["traces_validated_against_impl"] += n
        table.append(row)
        if s["status"] == "error":
            errors.append("%s: %s" % (s["scenario"], s.get("err") or s.get("msg")))
        if s["status"] == "capped":
            capped.append(s["scenario"])
        for f in knowns:
            known_hit.append((s["scenario"], f["key"]))
        seen = set()
        for i, f in enumerate(fails):
            if f["key"] in seen:
                continue
            seen.add(f["key"])
            p = "%s/%s-%s%s.txt" % (rdir, cid, s["scenario"], "" if not i else "-%d" % i)
            ch = ",".join(map(str, f["choices"]))
            with open(p, "w") as g:
                g.write("property %s, scenario %s: %s\n" % (cid, s["scenario"], s.get("what", "")))
                g.write("[%s] %s\n\n" % (f["key"], f["msg"]))
                extra = " --unlock-points 1" if s.get("unlock_points") else ""
                g.write("replay: python3 run.py replay %s %s '%s' %s%s\n\n" % (cid, s["scenario"], ch, tier, extra))
                g.write(symbolize(exe, f["labels"]) if c["engine"] == "mcx" else f["labels"])
                g.write("\n")
            violations.append((p, s["scenario"], f))
    if c["engine"] == "mcx":
        for s in res[:2]:
            r = subprocess.run([exe, "--only", s["scenario"], "--choices", "", "--tier", tier], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace", env=environ(), cwd=scratch)
            lines = [l for l in r.stdout.splitlines() if "pcs:" not in l]
            cov["samples"].append("%s, first schedule: %s" % (s["scenario"], " | ".join(lines)[:1500]))
        for s in res:
            if s.get("outcomes"):
                cov["samples"].append("%s outcomes: %s" % (s["scenario"], "; ".join(s["outcomes"][:6])))
    cov["samples"] = cov["samples"][:24]
    cov["exhaustive"] = not capped and not errors
    cov["scenarios"] = table
    cov["bounds"] = c["bounds"]
    cov["how_bound_to_code"] = ("the explored transitions are executions of /repo's compiled code itself: every trace ran on the "
                                "implementation and was compared with the oracle")
    if capped:
        cov["not_exhausted"] = capped
    ev = {"property": cid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": cov, "assumptions": c["assumptions"], "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(V + "/evidence/%s.json" % cid, "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d scenarios, %d states, %d transitions, %d executions, build %.1f s, total %.1f s%s" %
          (cid, tier, len(res), cov["states"], cov["transitions"], cov["traces_validated_against_impl"], build_s,
           ev["wall_s"], "" if not capped else ", not exhausted: " + ", ".join(capped)))
    for (s, k, what) in kn:
        if (s, k) in known_hit:
            print("KNOWN-FINDING: property=%s %s [%s %s]" % (cid, what, s, k))
    for p, s, f in violations[:20]:
        print("  %s: [%s] %s" % (s, f["key"], f["msg"][:400].replace("\n", " ")))
        print("VIOLATION property=%s replay=%s" % (cid, p))
    shutil.rmtree(scratch, ignore_errors=True)
    if violations:
        return 1
    if errors:
        print("ERROR: " + "; ".join(errors)[:3000])
        return 2
    return 0


def main():
    a = sys.argv[1:]
    if not a or a[0] == "list":
        for k in sorted(CHECKS):
            print(k, CHECKS[k]["engine"], " ".join(CHECKS[k]["harness"]))
        return 0
    if a[0] == "replay":
        c = CHECKS[a[1]]
        bdir = V + "/build/" + a[1]
        exe = build(a[1], c, bdir)
        cmd = [exe, "--only", a[2], "--choices", a[3], "--tier", a[4] if len(a) > 4 else "quick"] + a[5:]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=environ())
        print(symbolize(exe, r.stdout) if c["engine"] == "mcx" else r.stdout)
        return r.returncode
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        return execute(a[0], CHECKS[a[0]], tier)
    except BuildError as e:
        print("ERROR: %s could not be built or run:\n%s" % (a[0], e))
        return 2


sys.exit(main())
