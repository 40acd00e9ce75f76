#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--keep]

Rebuilds /repo's working tree with the flavour a property's harness needs, runs the
explorer, writes evidence/<property>.json.  Exit 0: held on everything explored.
Exit 1 with a VIOLATION line: broken.  Exit 2: error of the check.
"""
import argparse, glob, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CORK_REPO", "/repo")
KNOWN = os.path.join(HERE, "known-findings.txt")
sys.path.insert(0, HERE)
from registry import CHECKS, FLAVOURS

ASAN_OPTIONS = ("detect_leaks=0:allocator_may_return_null=1:exitcode=77:"
                "quarantine_size_mb=8:malloc_context_size=6:detect_stack_use_after_return=0:"
                "handle_abort=0:max_allocation_size_mb=4096")


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("$ %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def write_version_h(bdir):
    d = os.path.join(bdir, "include", "libcork", "config")
    os.makedirs(d, exist_ok=True)
    src = open(os.path.join(REPO, "include/libcork/config/version.h.in")).read()
    for k, v in {"CORK_VERSION_MAJOR": "0", "CORK_VERSION_MINOR": "0", "CORK_VERSION_PATCH": "0",
                 "CORK_VERSION": "0.0.0-git", "CORK_GIT_SHA1": "0000000"}.items():
        src = src.replace("@%s@" % k, v)
    with open(os.path.join(d, "version.h"), "w") as f:
        f.write(src)


def build(run, bdir):
    fl = FLAVOURS[run["flavour"]]
    write_version_h(bdir)
    inc = ["-I", os.path.join(REPO, "include"), "-I", os.path.join(bdir, "include"),
           "-I", os.path.join(HERE, "mc"), "-I", REPO]
    defs = ["-DCORK_API=CORK_LOCAL"] + fl.get("defs", []) + run.get("defs", [])
    cc = fl.get("cc", "gcc")
    jobs = []
    lib = sorted(glob.glob(os.path.join(REPO, "src/libcork/**/*.c"), recursive=True))
    libobjs = []
    for i, s in enumerate(lib):
        o = os.path.join(bdir, "lib%03d_%s.o" % (i, os.path.basename(s)[:-2]))
        libobjs.append(o)
        jobs.append([cc] + fl["lib"] + ["-w"] + defs + inc + ["-c", s, "-o", o])
    objs = []
    hs = [os.path.join(HERE, "harness", h) for h in run["harness"]]
    for s in hs:
        o = os.path.join(bdir, "h_%s.o" % os.path.basename(s)[:-2])
        objs.append(o)
        jobs.append([cc] + fl["harness"] + ["-Wall", "-Wno-unused-function"] + defs +
                    ["-DHARNESS_NAME=\"%s\"" % run["harness"][0]] + inc + ["-c", s, "-o", o])
    for pat, fl2 in run.get("extra", []):          # other sources of the repository
        for s in sorted(glob.glob(os.path.join(REPO, pat))):
            o = os.path.join(bdir, "x_%s.o" % os.path.basename(s)[:-2])
            objs.append(o)
            jobs.append([cc] + fl["lib"] + ["-w"] + defs + fl2 + inc + ["-c", s, "-o", o])
    for s in ["mc.c"] + fl.get("mc", []) + run.get("mc", []):
        o = os.path.join(bdir, "mc_%s.o" % s[:-2])
        objs.append(o)
        jobs.append([cc] + fl["mc_flags"] + defs + inc + ["-c", os.path.join(HERE, "mc", s), "-o", o])
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(sh, jobs))
    if fl.get("snapshot"):
        # static data of the code under test lives in sections of its own (see mc/mcsched.c)
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            list(ex.map(sh, [["objcopy", "--set-section-flags", ".bss=alloc,load,contents,data",
                              "--rename-section", ".data=mc_data", "--rename-section", ".bss=mc_bss",
                              o] for o in libobjs + [o for o in objs
                              if not os.path.basename(o).startswith("mc_")]]))
    ren = run.get("rename", [])
    if ren:
        # library calls of these symbols go to mcw_<symbol>
        syms = []
        for r in ren:
            syms += ["--redefine-sym", "%s=mcw_%s" % (r, r)]
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            list(ex.map(sh, [["objcopy"] + syms + [o] for o in libobjs]))
    out = os.path.join(bdir, "harness")
    sh([cc] + fl["link"] + objs + libobjs + ["-o", out] + fl.get("libs", []) + ["-lpthread"])
    return out


def remove_scratch(scratch):
    for d, subdirs, _ in os.walk(scratch):            # doesn't follow links
        for n in [d] + [os.path.join(d, x) for x in subdirs]:
            if not os.path.islink(n):
                os.chmod(n, 0o755)
    shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="only check that the tools are there")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--run", type=int, default=None, help="only this run of the check")
    a = ap.parse_args()
    if a.selftest:
        sh(["gcc", "--version"])
        sh(["objcopy", "--version"])
        return 0
    if a.property not in CHECKS:
        ap.error("properties: " + " ".join(sorted(CHECKS)))
    if a.replay:
        a.replay = os.path.abspath(a.replay)
    prop, tier = a.property, a.tier
    chk = CHECKS[prop]
    t0 = time.time()
    rdir = os.path.join(HERE, "replay")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    base = os.path.join(HERE, "build", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    env = dict(os.environ, ASAN_OPTIONS=ASAN_OPTIONS, LC_ALL="C", TZ="UTC",
               MALLOC_ARENA_MAX="1")
    scratch = None                                    # for checks that touch the file system
    try:
        scratch = tempfile.mkdtemp(prefix="cork-mc-", dir="/dev/shm")
    except OSError:
        scratch = tempfile.mkdtemp(prefix="cork-mc-")
    if os.geteuid() == 0:
        os.chown(scratch, 65534, 65534)
    env["MC_SCRATCH"] = scratch
    results = []
    violation = None
    rc = 0
    try:
        for i, run in enumerate(chk["runs"]):
            if a.run is not None and i != a.run:
                continue
            if run.get("tier") and run["tier"] != tier:
                continue
            bdir = os.path.join(base, str(i))
            os.makedirs(bdir)
            exe = build(run, bdir)
            out = os.path.join(bdir, "out.json")
            cmd = [exe, "--out", out, "--property", prop, "--known", KNOWN, "--replaydir", rdir,
                   "--workers", str(run.get("workers", os.cpu_count() or 4)),
                   "--limit", str(run.get("limit", 500 if tier == "quick" else 3000)),
                   "--hang", str(run.get("hang", 40)), "--arg", run.get("arg", "")]
            if tier == "thorough":
                cmd.append("--thorough")
            if a.replay:
                cmd = cmd[:1] + ["--arg", run.get("arg", "")] + \
                    (["--thorough"] if "tier=thorough" in open(a.replay).read(4000) else []) + \
                    ["--replay", a.replay]
                if ("harness=" + run["harness"][0]) not in open(a.replay).read(4000):
                    continue
                r = subprocess.run(cmd, env=env, cwd=bdir)
                return r.returncode
            r = subprocess.run(cmd, env=env, cwd=bdir, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, errors="replace")
            if not os.path.exists(out) or r.returncode not in (0, 1, 2):
                sys.stderr.write(r.stdout[-2000:] + r.stderr[-4000:])
                print("ERROR: explorer of %s ended with %s" % (prop, r.returncode))
                return 2
            if os.environ.get("MC_VERBOSE"):
                sys.stderr.write(r.stderr)
            d = json.load(open(out))
            d["harness"] = run["harness"][0]
            d["flavour"] = run["flavour"]
            d["arg"] = run.get("arg", "")
            results.append(d)
            if r.returncode == 1:
                violation = d
                break
            if r.returncode == 2:
                sys.stderr.write(r.stderr[-4000:])
                print("ERROR: %s: %s" % (prop, d["internal"]))
                return 2
    except BuildError as e:
        sys.stderr.write(str(e) + "\n")
        print("ERROR: build failed for %s" % prop)
        return 2
    finally:
        remove_scratch(scratch)
        if not a.keep:
            shutil.rmtree(base, ignore_errors=True)

    outcomes = {}
    for d in results:
        for k, v in d["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
    capped = any(d["capped"] for d in results)
    cov = {
        "states": sum(d["states"] for d in results),
        "transitions": sum(d["transitions"] for d in results),
        "traces_validated_against_impl": sum(d["executions"] for d in results),
        "samples": [s for d in results for s in d["samples"]][:6] or ["(no completed trace)"],
        "exhaustive": not capped and violation is None,
        "bounds": chk["bounds"][1 if tier == "thorough" else 0],
        "inputs_evaluated": sum(d["evaluations"] for d in results),
        "roots": sum(d["roots"] for d in results),
        "roots_completed": sum(d["roots_completed"] for d in results),
        "max_choices_in_one_execution": max([d["max_choices"] for d in results] + [0]),
        "pruned_revisits": sum(d["pruned_revisits"] for d in results),
        "distinct_outcomes": outcomes,
        "states_counter_saturated": any(d["states_saturated"] for d in results),
        "runs": [{k: d[k] for k in ("harness", "flavour", "arg", "executions", "transitions",
                                    "states", "roots_completed", "capped", "wall")}
                 for d in results],
        "model_binding": "the explored transitions are executed by the real code rebuilt from "
                         "/repo; the reference model runs in lock-step and is compared on every one",
    }
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking", "coverage": cov,
        "assumptions": chk.get("assumptions", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": 1 if violation else 0,
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for d in results:
        for k in d["known_hits"]:
            print("KNOWN-FINDING: property=%s key=%s %s" % (prop, k["key"], k["message"]))
    if violation:
        print("%s: %s" % (violation["violation_key"], violation["violation_message"]))
        print("VIOLATION property=%s replay=%s" % (prop, violation["violation_path"]))
        return 1
    print("%s %s: held; executions=%d transitions=%d states=%d inputs=%d%s wall=%.1fs" % (
        prop, tier, cov["traces_validated_against_impl"], cov["transitions"], cov["states"],
        cov["inputs_evaluated"], " CAPPED" if capped else "", ev["wall_s"]))
    return rc


if __name__ == "__main__":
    sys.exit(main())
