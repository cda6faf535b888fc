#!/usr/bin/env python3
"""Make and confirm a planted bug.
 mk(id, prop, [(file, old, new[, nth])], demo, needs, breaks): writes seeded/<id>/ and confirms it in a scratch copy
 that is mounted over /repo in a private mount namespace (nothing outside the scratch directory is changed)."""
import json, os, shutil, subprocess, sys, difflib
V = "/verif"
SC = "/tmp/sc"
DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen OMP_NUM_THREADS=2
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
cd "$T" || exit 9
timeout 250 /opt/venv/bin/python "$D/demo.py"
R=$?
rm -rf "$T"
exit $R
'''

# the font file of the repository is not in the sandbox; it is only used for drawing
PRE = '''import uxsim.analyzer
uxsim.analyzer.load_font_data = lambda *a, **k: b""
'''


def ns(script):
    """run a script with the scratch copy in place of /repo"""
    pre = "mount --bind %s/repo /repo && mount --bind %s/build /opt/uxsim-build && mount -t overlay overlay -o lowerdir=/opt/venv/lib/python3.12/site-packages,upperdir=%s/up,workdir=%s/wk /opt/venv/lib/python3.12/site-packages && cd /repo && " % (SC, SC, SC, SC)
    return subprocess.run(["unshare", "-m", "bash", "-c", pre + script], capture_output=True, text=True)


def fresh():
    subprocess.run("rm -rf /tmp/sc/repo /tmp/sc/build /tmp/sc/up /tmp/sc/wk && mkdir -p /tmp/sc/up /tmp/sc/wk && cp -a /repo /tmp/sc/repo && cp -a /opt/uxsim-build /tmp/sc/build", shell=True, check=True)


def mk(id, prop, edits, demo, needs, breaks, test=True, clean=True):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    fresh()
    cpp = False
    for ed in edits:
        f, old, new = ed[:3]
        nth = ed[3] if len(ed) > 3 else None
        p = SC + "/repo/" + f
        cpp |= f.endswith((".cpp", ".h"))
        raw = open(p, newline="").read()
        crlf = "\r\n" in raw
        s = raw.replace("\r\n", "\n")
        n = s.count(old)
        if n == 0 or (n > 1 and nth is None):
            print(id, "ERROR: %d matches in %s for %r" % (n, f, old[:80]))
            shutil.rmtree(d)
            return False
        parts = s.split(old)
        k = (nth or 0) + 1
        s = old.join(parts[:k]) + new + old.join(parts[k:])
        open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
    diff = subprocess.run(["git", "-C", SC + "/repo", "diff", "--binary"], capture_output=True).stdout
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(PRE + demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    b = ns("bash /opt/vp/build.sh")
    if b.returncode:
        print(id, "BUILD FAILS", b.stderr[-500:], b.stdout[-500:])
        return False
    x = ns("bash %s/demo.sh" % d)
    bad = x.returncode
    tail = (x.stdout + x.stderr)[-300:]
    tfail = ""
    if test:
        st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        ids = " ".join(i.replace("tests.", "tests/").replace("::", ".py::") for i in st)
        t = ns("export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen; /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -p no:xdist " + ids)
        tfail = "" if t.returncode == 0 else t.stdout[-300:]
    good = None
    if clean:
        ns("git checkout -q -- . ; true")
        if cpp:
            ns("bash /opt/vp/build.sh")
        y = ns("bash %s/demo.sh" % d)
        good = y.returncode
        if good:
            print((y.stdout + y.stderr)[-600:])
    print(id, prop, "patched rc=%s clean rc=%s tests failing=%s | %s" % (bad, good, tfail, tail.strip().splitlines()[-1:] if tail.strip() else ""))
    return bool(bad) and not good and not tfail
