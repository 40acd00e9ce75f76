#!/usr/bin/env python3
"""seed.py ID PROPERTY FILE  -- reads a python snippet-like spec from stdin:
   lines: see load(); makes seeded/ID, confirms it (build, tests, demo on both trees), then
   runs the property's check on the changed tree.  Editing helper only."""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
DEMO = '''#!/bin/sh
# Builds the library from the current directory's sources and runs demo.c against it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/include/libcork/config"
sed -e 's/@CORK_VERSION_M[A-Z]*@/0/; s/@CORK_VERSION_PATCH@/0/; s/@CORK_VERSION@/0/; s/@CORK_GIT_SHA1@/0/' \\
    include/libcork/config/version.h.in > "$T/include/libcork/config/version.h" || exit 2
gcc -g -O1 -w %(flags)s -DCORK_API=CORK_LOCAL -Iinclude -I"$T/include" "$D/demo.c" \\
    $(find src/libcork -name '*.c') -o "$T/demo" -lpthread || exit 2
cd "$T" || exit 2
%(env)stimeout %(timeout)d ./demo
'''

def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def seed(id, prop, edits, demo, needs, breaks, flags="-fsanitize=address", timeout=60, env="ASAN_OPTIONS=detect_leaks=0 ", demo_sh=None, check=True, run_checks=None):
    d = os.path.join(H, "seeded", id)
    wt = "/tmp/seedwt-%d" % os.getpid()
    shutil.rmtree(wt, ignore_errors=True)
    sh("cp -a /repo %s" % wt)
    try:
        for f, a, b in edits:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(a) != 1:
                print("%s: edit matches %d times in %s" % (id, s.count(a), f)); return False
            open(p, "w").write(s.replace(a, b))
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(subprocess.run("git diff", shell=True, cwd=wt, stdout=subprocess.PIPE, text=True).stdout)
        if demo:
            open(os.path.join(d, "demo.c"), "w").write(demo)
        open(os.path.join(d, "demo.sh"), "w").write(demo_sh or DEMO % dict(flags=flags, timeout=timeout, env=env))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        r0 = sh("bash %s/demo.sh" % d, cwd="/repo")
        r1 = sh("bash %s/demo.sh" % d, cwd=wt)
        ok = r0.returncode == 0 and r1.returncode != 0 and r1.returncode != 2
        print("%s: demo unchanged %d, changed %d" % (id, r0.returncode, r1.returncode))
        if not ok:
            print(r0.stdout[-1500:], "-----", r1.stdout[-1500:]); return False
        # build and tests in place of /repo
        sh("git -C /repo apply %s/patch.diff" % d)
        try:
            b = sh("bash /opt/vp/build.sh")
            t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            c = None
            print("   build %d tests: %s" % (b.returncode, t.stdout.strip().splitlines()[-1]))
            for p in (run_checks or [prop]) if check else []:
                c = sh("timeout 900 python3 check.py %s" % p, cwd=H)
                print("   check %s: %d %s" % (p, c.returncode, c.stdout.strip().splitlines()[-2:]))
        finally:
            sh("git -C /repo checkout -- .")
            sh("bash /opt/vp/build.sh")
        return True
    finally:
        shutil.rmtree(wt, ignore_errors=True)
