#!/usr/bin/env python3
"""Planted bugs: make them from tools/bugs/*.py and try them in a private copy of /repo.

  bug.py make [ID...]   write ../seeded/<id>/ from the specs
  bug.py try  [ID...]   per bug, in a copy of /repo bound over /repo in a mount
                        namespace of its own: build, stable tests, demo with and
                        without the patch, and the property's quick check
  bug.py cross ID PROP...  run the quick checks of other properties on one bug
No check uses this file or seeded/.
"""
import glob, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(HERE)
SEED = os.path.join(TOP, "seeded")
BASE = "d8a6658"
DEMO = """#!/bin/bash
# exit 0: the property holds in this case; nonzero: it is broken
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
g++ %s -I. -I_build/main "$here/demo.cc" %s -o "$work/demo" || exit 2
cd "$work" && timeout 120 ./demo
"""


def specs():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, "bugs", "*.py"))):
        ns = {}
        exec(open(f).read(), ns)
        for b in ns["BUGS"]:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)


def make(ids):
    S = specs()
    w = "/tmp/bugmake"
    for i in ids or S:
        b = S[i]
        shutil.rmtree(w, ignore_errors=True)
        subprocess.check_call(["git", "clone", "-q", "/repo", w])
        for f, old, new in b["edits"]:
            p = os.path.join(w, f)
            t = open(p, newline="").read()
            assert t.count(old) == b.get("count", 1), (i, f, t.count(old), old)
            open(p, "w", newline="").write(t.replace(old, new))
        d = sh(["git", "-C", w, "diff"]).stdout
        assert d, i
        base = {}
        cur = None
        for line in d.splitlines():
            if line.startswith("--- a/"):
                cur = line[6:]
                base[cur] = set(x.rstrip("\r") for x in sh(["git", "-C", w, "show", BASE + ":" + cur]).stdout.split("\n"))
            elif line.startswith("-") and not line.startswith("---"):
                if line[1:].rstrip("\r") not in base[cur]:
                    print("WARNING", i, "changes a line that is not in the base:", line)
        o = os.path.join(SEED, i)
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        open(os.path.join(o, "patch.diff"), "w", newline="").write(d)
        open(os.path.join(o, "demo.cc"), "w").write(b["demo"])
        open(os.path.join(o, "demo.sh"), "w").write(
            b.get("script") or DEMO % ("-std=c++17 " + b.get("flags", ""), b.get("libs", "")))
        os.chmod(os.path.join(o, "demo.sh"), 0o755)
        for src in b.get("beside", []):  # folders of TOP the demo needs
            shutil.copytree(os.path.join(TOP, src), os.path.join(o, os.path.basename(src)))
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]),
                  open(os.path.join(o, "meta.json"), "w"), indent=1)
        print("made", i)
    shutil.rmtree(w, ignore_errors=True)


INNER = r"""
set -u
mount --bind "$1" /repo
cd /repo
bash /opt/vp/test.sh "$1.json" > "$1.test.log" 2>&1
echo "RC test=$?"
bash "$2/demo.sh" > "$1.demo.log" 2>&1
echo "RC demo=$?"
cd "$3"
for p in $4; do
python3 vp.py check $p > "$1.check.$p.log" 2>&1
echo "RC check:$p=$?"
done
"""


def attempt(i, props=None, only_check=False):
    b = json.load(open(os.path.join(SEED, i, "meta.json")))
    w = "/tmp/bug_" + i
    v = "/tmp/bugv_" + i
    for d in (w, v):
        shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", w])
    os.makedirs(v)
    for n in ("vp.py", "checks.py", "lib", "harness", "tools"):
        subprocess.check_call(["cp", "-a", os.path.join(TOP, n), v])
    demo = v + "/demo"
    shutil.copytree(os.path.join(SEED, i), demo)
    clean = 0
    inner = INNER
    if only_check:
        inner = inner.replace('bash /opt/vp/test.sh "$1.json" > "$1.test.log" 2>&1', "true").replace(
            'bash "$2/demo.sh" > "$1.demo.log" 2>&1', "true")
    else:
        clean = sh(["bash", demo + "/demo.sh"], cwd=w).returncode
    a = sh(["git", "-C", w, "apply", os.path.join(SEED, i, "patch.diff")])
    assert a.returncode == 0, a.stderr
    r = sh(["unshare", "-Urm", "bash", "-c", inner, "x", w, demo, v, " ".join(props or [b["property"]])])
    res = dict(x[3:].split("=") for x in r.stdout.splitlines() if x.startswith("RC "))
    tests = "?"
    if not only_check:
        try:
            t = json.load(open(w + ".json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            stable = base.get("passed") or base.get("stable") or base.get("tests")
            miss = [x for x in stable if x not in set(t["passed"])]
            tests = "ok" if not miss else "MISSING %d %s" % (len(miss), miss[:3])
        except Exception as e:
            tests = "error %r" % e
    checks = {k[6:]: v2 for k, v2 in res.items() if k.startswith("check:")}
    ok = tests == "ok" and clean == 0 and res.get("demo") not in ("0", "2")
    print(i, "valid" if ok else "INVALID", "tests=" + tests, "demo clean=%d bug=%s" % (clean, res.get("demo")),
          "checks", checks, "CAUGHT" if "1" in checks.values() else "MISSED", flush=True)
    if not ok or "1" not in checks.values():
        os.makedirs("/tmp/buglogs", exist_ok=True)
        sh("cp -a %s.*.log /tmp/buglogs/" % w)
    sh("rm -rf %s %s %s.*" % (w, v, w))


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        make(ids)
    elif cmd in ("try", "check"):
        from concurrent.futures import ThreadPoolExecutor

        def go(i):
            try:
                attempt(i, only_check=cmd == "check")
            except Exception as e:
                print(i, "ERROR", repr(e), flush=True)
        with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as ex:
            list(ex.map(go, ids or sorted(os.listdir(SEED))))
    elif cmd == "cross":
        attempt(ids[0], ids[1:], only_check=True)
