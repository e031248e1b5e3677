#!/usr/bin/env python3
"""Runner for the property checks.

  vp.py check  ID [--tier quick|thorough] [--only SUB] [--scale X]
  vp.py replay FILE         re-decide one saved counterexample
  vp.py list                the properties and their harness files
  vp.py setup               sanity check of the toolchain (MANIFEST setup_cmd)

A check rebuilds its harness from /repo's working tree, runs every
sub-property on generated cases, shrinks and replays failures, and writes
evidence/<ID>.json.  Exit 0: held. Exit 1 + VIOLATION line: broken.
Exit 2: the check itself could not be carried out (no verdict).
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil
import struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

JOBS = int(os.environ.get("VERIF_JOBS") or max(1, min(8, os.cpu_count() or 1)))
CXX = "g++"
BASE = ["-std=c++17", "-include", "bits/stdc++.h", "-g1", "-O1", "-w", "-fno-omit-frame-pointer"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-D_GLIBCXX_ASSERTIONS"]
# What /opt/vp/build.sh configures; see ristra/ristra-config.h.in.
CONFIG = {
    "RISTRA_DOUBLE_PRECISION": "", "RISTRA_TEST_TOLERANCE": "1.0e-14",
    "RISTRA_ENABLE_PYTHON": "", "RISTRA_ENABLE_LUA": "", "RISTRA_ENABLE_MPI": "",
    "RISTRA_ENABLE_EXCEPTIONS": "", "RISTRA_DBC_REQUIRE": "",
}
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=86:"
                    "detect_stack_use_after_return=1:allocator_may_return_null=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=86",
    "TSAN_OPTIONS": "exitcode=86", "LC_ALL": "C.UTF-8",
    "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
})
ENV.pop("RC_PARAMS", None)


def die(msg):
    print("ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(2)


def gen_config(bdir):
    """ristra-config.h as this build configures it, from the tree's template."""
    src = open(os.path.join(REPO, "ristra/ristra-config.h.in")).read()
    def sub(m):
        name, rest = m.group(1), m.group(2)
        if name not in CONFIG:
            return "/* #undef %s */" % name
        val = re.sub(r"@(\w+)@|\$\{(\w+)\}",
                     lambda v: CONFIG.get(v.group(1) or v.group(2), ""), rest)
        return ("#define %s %s" % (name, val.strip())).rstrip()
    out = re.sub(r"#\s*cmakedefine\s+(\w+)([^\n]*)", sub, src)
    out = re.sub(r"@(\w+)@|\$\{(\w+)\}",
                 lambda v: CONFIG.get(v.group(1) or v.group(2), ""), out)
    os.makedirs(os.path.join(bdir, "inc/ristra"), exist_ok=True)
    with open(os.path.join(bdir, "inc/ristra/ristra-config.h"), "w") as f:
        f.write(out)


def sh(cmd, timeout=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=ENV, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode("utf-8", "replace")


def rejected(pid, cmd):
    """A translation unit was rejected.  The harnesses use only the interface the statements are about, on types the
    statements cover, so code they compile with no longer offers it.  Anything else (a missing file, a compiler that
    died, something the stand-ins for VTK lack) is no verdict."""
    rc, out = sh(cmd)
    print(out[:3000] if len(out) < 6000 else out[:3000] + "\n...\n" + out[-3000:])
    what = "%s: harness does not compile against %s: %s" % (pid, REPO, " ".join(cmd[-4:]))
    errors = [l for l in out.split("\n") if re.search(r": (fatal )?error: ", l)]
    if rc != 1 or not errors or re.search("fatal error: |internal compiler error|No space left|Killed|vtk", "\n".join(errors)):
        die(what)
    path = os.path.join(VERIF, "replays", pid + "-interface.json")
    for d in ("replays", "evidence"):
        os.makedirs(os.path.join(VERIF, d), exist_ok=True)
    with open(path, "w") as f:
        json.dump(dict(property=pid, sub="interface", case="an operation the statement covers, on a type it covers",
                       message=errors[:5], how="python3 vp.py replay replays/%s-interface.json" % pid), f, indent=1)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(dict(property=pid, tier=os.environ.get("VERIF_TIER", "quick"),
                       seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=CHECKS[pid].get("level", "exploration"),
                       coverage=dict(evaluations=0, distinct_nontrivial=0, rule=CHECKS[pid]["rule"], samples=[],
                                     errors=[what] + errors[:5]),
                       assumptions=[], wall_s=0, violations=1), f, indent=1)
    print(what)
    print("VIOLATION property=%s replay=%s" % (pid, path))
    sys.stdout.flush()
    sys.exit(1)


def build(pid, conf, bdir):
    """One or more binaries; returns [path]."""
    gen_config(bdir)
    bins = []
    jobs = []   # (cmd, obj)
    links = []  # (objs, bin, flags)
    for k, unit in enumerate(conf["bins"]):
        flags = ["-I" + os.path.join(VERIF, "lib")] + unit.get("pre", []) + list(BASE) + (SAN if unit.get("san", True) else [])
        flags += ["-I" + os.path.join(bdir, "inc"), "-I" + REPO,
                  "-I" + os.path.join(VERIF, "lib")]
        flags += [f.replace("@REPO@", REPO) for f in unit.get("flags", [])]
        cxx = unit.get("cxx", CXX)
        objs = []
        srcs = [os.path.join(VERIF, "harness", s) for s in unit["src"]]
        srcs += [os.path.join(VERIF, "lib/vp_main.cc")]
        srcs += [os.path.join(REPO, s) for s in unit.get("repo_src", [])]
        for i, s in enumerate(srcs):
            o = os.path.join(bdir, "b%d_%d_%s.o" % (k, i, os.path.basename(s)))
            jobs.append([cxx] + flags + ["-c", s, "-o", o])
            objs.append(o)
        b = os.path.join(bdir, unit.get("name", "bin%d" % k))
        links.append([cxx] + flags + objs + ["-o", b, "-lrapidcheck", "-pthread"]
                     + unit.get("libs", []))
        bins.append(b)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for cmd, (rc, out) in zip(jobs, ex.map(sh, jobs)):
            if rc != 0:
                rejected(pid, cmd)
        for cmd, (rc, out) in zip(links, ex.map(sh, links)):
            if rc != 0:
                print(out[-4000:])
                die("%s: harness does not link" % pid)
    return bins


def seed_for(seed, *parts):
    h = hashlib.sha256(("%d/" % seed + "/".join(map(str, parts))).encode())
    return struct.unpack("<Q", h.digest()[:8])[0] & 0x7FFFFFFFFFFFFFFF or 1


def load_json(p):
    try:
        return json.load(open(p))
    except Exception:
        return None


def started(out):
    try:
        return struct.unpack("<Q", open(out + ".shm", "rb").read(8))[0]
    except Exception:
        return 0


def run_batch(job):
    """-> dict(status, ...) for one (binary, sub-property, seed, cases)."""
    b, sub, seed, cases, out, effort, limit = job
    cmd = [b, "--run", sub, "--seed", str(seed), "--cases", str(cases),
           "--out", out, "--effort", str(effort)]
    rc, log = sh(cmd, timeout=limit)
    if rc == -999:
        return dict(status="timeout", sub=sub, bin=b, log=log)
    if rc in (0, 10, 11):
        r = load_json(out) or dict(status="error", message="no result file")
        r.update(sub=sub, bin=b, log=log, out=out)
        return r
    # crashed or hung: repeat with a fork around each case from the fatal one on
    n = started(out)
    first_log = log
    extra = ["--isolate-from", str(max(1, n))]
    if rc == 97:
        extra += ["--hang", "10", "--no-shrink"]
    rc2, log = sh(cmd + extra, timeout=max(limit, 400))
    if rc2 == 10:
        r = load_json(out)
        r.update(sub=sub, bin=b, log=first_log[:6000], out=out, crashed=True,
                 hang=(rc == 97))
        return r
    # The crash needs the history of the whole batch: decide it by running the
    # same batch again.
    rc3, log3 = sh(cmd, timeout=limit)
    if rc3 not in (0, 10, 11, -999):
        return dict(status="failed", sub=sub, bin=b, log=first_log[:6000], crashed=True,
                    batch=cmd[1:], evaluations=n, nontrivial=0, tags={}, samples=[],
                    out=out, case="the whole batch of %d cases" % n, reproduce="",
                    message="the process ended with status %s, twice in a row" % rc)
    return dict(status="unreproduced", sub=sub, bin=b, log=first_log[:6000],
                message="process ended with %s at case %d; isolated run: %s; again: %s"
                        % (rc, n, rc2, rc3))


def rerun_batch(r, job):
    """Does the same batch (same seed, fresh process) fail again?"""
    b, sub, seed, cases, out, effort, limit = job
    cmd = [b, "--run", sub, "--seed", str(seed), "--cases", str(cases),
           "--out", out + ".again", "--effort", str(effort)]
    rc, _ = sh(cmd, timeout=limit)
    if rc not in (0, 11, -999):
        r["batch"] = cmd[1:]
        return True
    return False


def do_replay(b, sub, rep, effort=1, hang=False):
    cmd = [b, "--replay", sub, rep, "--effort", str(effort)]
    if hang:
        cmd += ["--hang", "10"]
    rc, log = sh(cmd, timeout=300)
    return rc, log


def check(pid, tier, only=None, scale=1.0, keep=False):
    t0 = time.time()
    conf = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    bdir = os.path.join(VERIF, "_build", pid)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    ENV["TMPDIR"] = os.path.join(bdir, "tmp")  # scratch files of the harnesses
    os.makedirs(ENV["TMPDIR"])
    bins = build(pid, conf, bdir)
    tb = time.time() - t0
    jobs = []
    thorough = tier == "thorough"
    mult = (conf.get("thorough", 150) if thorough else conf.get("quick", 10)) * scale
    effort = conf.get("thorough_effort", 4) if thorough else 1
    limit = 3000 if thorough else 500
    for b in bins:
        rc, out = sh([b, "--list"])
        if rc != 0:
            print(out)
            die("%s: harness does not start" % pid)
        for line in out.split("\n"):
            if not line.strip():
                continue
            sub, n = line.split()
            if only and not re.search(only, sub):
                continue
            n = max(1, int(float(n) * mult))
            batches = max(1, min(conf.get("batches", 2) * (4 if thorough else 1), n))
            if conf.get("serial"):
                batches = 1
            for k in range(batches):
                c = n // batches + (1 if k < n % batches else 0)
                o = os.path.join(bdir, "%s.%s.%d.json" % (os.path.basename(b), sub, k))
                jobs.append((b, sub, seed_for(seed, pid, sub, k), c, o, effort, limit))
    results = []
    with cf.ThreadPoolExecutor(conf.get("jobs", JOBS)) as ex:
        results = list(ex.map(run_batch, jobs))

    violations, errors = [], []
    evals, hashes, samples, tags, per = 0, set(), [], {}, {}
    for r, j in zip(results, jobs):
        r["job"] = j
        if r["status"] in ("ok", "failed"):
            evals += r["evaluations"]
            p = per.setdefault(r["sub"], dict(cases=0, nontrivial=0))
            p["cases"] += r["evaluations"]
            p["nontrivial"] += r["nontrivial"]
            for t, v in r["tags"].items():
                tags[r["sub"] + ":" + t] = tags.get(r["sub"] + ":" + t, 0) + v
            try:
                raw = open(r["out"] + ".hashes", "rb").read()
                sb = r["sub"].encode()
                for (x,) in struct.iter_unpack("<Q", raw):
                    hashes.add((sb, x))
            except Exception:
                pass
            if sum(1 for s in samples if s["sub"] == r["sub"]) < 3:
                samples += [dict(sub=r["sub"], case=s) for s in r["samples"][-2:]]
        if r["status"] == "failed":
            violations.append(r)
        elif r["status"] != "ok":
            errors.append(r)

    confirmed = []
    seen = set()
    for r in violations:
        if r["sub"] in seen:
            continue
        seen.add(r["sub"])
        hits, case, msg = 0, r.get("case"), r.get("message")
        if r.get("batch"):
            r["hits"] = 0
            confirmed.append(r)
            continue
        # A wrong answer that depends on what memory happens to hold need not come back every time: three replays
        # settle the usual case, and one that failed in some of them gets up to twenty more.
        for k in range(3 if r.get("hang") else 23):
            if k >= 3 and (hits in (0, k) or hits >= 3):
                break
            rc, log = do_replay(r["bin"], r["sub"], r["reproduce"], effort,
                                r.get("hang", False))
            if rc == 10:
                hits += 1
                m = re.search(r"FAILED: [^\n]*\n  case: (.*?)\n  (.*)", log, re.S)
                if m:
                    case, msg = m.group(1), m.group(2).strip()
                    msg = re.sub(r"^\S*vp_main.cc:\d+:\nRC_FAIL[^\n]*\n\n", "", msg)
        r["hits"], r["case"], r["message"] = hits, case, msg
        if hits >= 3 or (hits == 0 and conf.get("history_proof")) or \
                (hits > 0 and conf.get("history_proof")):
            confirmed.append(r)
        elif any(rerun_batch(r, r["job"]) for _ in range(1 if r.get("hang") else 4)):  # needs the history of earlier cases
            confirmed.append(r)
        else:
            errors.append(dict(status="unstable", sub=r["sub"], log=r.get("log", ""),
                               message="failed once, then in %d replays: %s | %s"
                               % (hits, case, msg)))
    rdir = os.path.join(VERIF, "replays")
    lines = []
    for r in confirmed:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (pid, re.sub(r"\W", "_", r["sub"])))
        with open(path, "w") as f:
            json.dump(dict(property=pid, sub=r["sub"], case=r["case"],
                           message=r["message"], reproduce=r["reproduce"],
                           batch=r.get("batch"),
                           effort=effort, hang=bool(r.get("hang")),
                           binary=os.path.basename(r["bin"]),
                           replays_failing=r["hits"],
                           counterexample=r.get("counterexample"),
                           log=(r.get("log") or "")[:4000] if r.get("crashed") else "",
                           how="python3 vp.py replay " + os.path.relpath(path, VERIF)),
                      f, indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        print("--- %s / %s\n  case: %s\n  %s" % (pid, r["sub"], r["case"], r["message"]))
        if r.get("crashed"):
            print((r.get("log") or "")[:3000])

    for kf in known_findings():
        if kf["property"] == pid:
            print("KNOWN-FINDING: property=%s %s" % (pid, kf["what"]))

    ev = dict(property=pid, tier=tier, seed=seed, level=conf.get("level", "exploration"),
              coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes),
                            rule=conf["rule"], samples=samples[:24],
                            sub_properties=per, labels=tags,
                            build_s=round(tb, 1), errors=[e.get("message", e["status"])
                                                          for e in errors]),
              assumptions=conf.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not keep:
        shutil.rmtree(bdir, ignore_errors=True)
    if lines:
        print("\n".join(lines))
        sys.stdout.flush()
        sys.exit(1)
    if errors:
        for e in errors:
            print("ERROR %s %s: %s\n%s" % (e["status"], e["sub"], e.get("message", ""),
                                          (e.get("log") or "")[-3000:]))
        die("%s: no verdict" % pid)
    print("%s held: %d cases, %d distinct non-trivial, build %.0fs, total %.0fs" %
          (pid, evals, len(hashes), tb, time.time() - t0))
    sys.exit(0)


# ---- U08: the generated inputs are types, so every batch is compiled ---------
def run_types(cases, bdir, tag):
    """{case number: answer}, or None if the program does not compile."""
    import traits
    src, exe = os.path.join(bdir, tag + ".cc"), os.path.join(bdir, tag)
    with open(src, "w") as f:
        f.write(traits.program(cases))
    rc, log = sh([CXX, "-std=c++17", "-include", "bits/stdc++.h", "-O0", "-w", "-fmax-errors=3", "-fsanitize=address,undefined",
                  "-fno-sanitize-recover=all", "-I" + os.path.join(bdir, "inc"), "-I" + REPO,
                  src, "-o", exe], timeout=600)
    if rc != 0:
        return None, log
    rc, log = sh([exe], timeout=100)
    out = {}
    for line in log.split("\n"):
        p = line.split(" ", 1)
        if len(p) == 2 and p[0].isdigit():
            out[int(p[0])] = p[1]
    os.remove(exe)
    return out, log


def types_wrong(q, bdir, tag):
    """None if the answer to this one case is right, else what it is."""
    import traits
    out, log = run_types([(0, q)], bdir, tag)
    if out is None:
        return "the query does not compile:\n" + log[:1500]
    want = traits.evaluate(q)[1]
    got = out.get(0, "nothing (the program ended early)\n" + log[:1500])
    return None if got == want else "answers %s, expected %s" % (got, want)


def check_types(pid, tier, scale=1.0, keep=False):
    sys.path.insert(0, os.path.join(VERIF, "lib"))
    import traits
    t0 = time.time()
    conf = CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    bdir = os.path.join(VERIF, "_build", pid)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    gen_config(bdir)
    out, log = run_types([], bdir, "empty")
    if out is None:
        print(log[-4000:])
        die("%s: the headers do not compile" % pid)
    programs = max(1, int((600 if tier == "thorough" else 60) * scale))
    evals, hashes, per, samples = 0, set(), {}, []
    work, bad = [], []
    for k in range(programs):
        g = traits.Gen(seed_for(seed, pid, k))
        work.append([(i, g.case()) for i in range(400)])
    errors = []

    def one(a):
        k, cases = a
        out, log = run_types(cases, bdir, "p%d" % k)
        if out is not None:
            return [q for i, q in cases if out.get(i) != traits.evaluate(q)[1]][:3]
        while len(cases) > 1:  # which query does not compile?
            half = cases[:len(cases) // 2]
            if run_types(half, bdir, "p%d" % k)[0] is None:
                cases = half
            elif run_types(cases[len(half):], bdir, "p%d" % k)[0] is None:
                cases = cases[len(half):]
            else:
                return "program %d does not compile, both halves do\n%s" % (k, log[:2000])
        return [q for _, q in cases]

    with cf.ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(one, list(enumerate(work))):
            if isinstance(r, str):
                errors.append(r)
            else:
                bad += r
    for cases in work:
        for _, q in cases:
            evals += 1
            p = per.setdefault(q["q"], dict(cases=0, nontrivial=0, answers={}))
            p["cases"] += 1
            w = traits.evaluate(q)[1]
            w = w if w in ("yes", "no") else "a name"
            p["answers"][w] = p["answers"].get(w, 0) + 1
            if traits.nontrivial(q):
                p["nontrivial"] += 1
                hashes.add(hashlib.sha256(traits.key(q).encode()).digest()[:8])
            if p["cases"] == 3:
                samples.append(dict(sub=q["q"], case=traits.describe(q)))
    lines, seen = [], set()
    for q in bad:
        if q["q"] in seen:
            continue
        why = types_wrong(q, bdir, "s")
        if why is None:
            errors.append("not reproduced alone: " + traits.describe(q))
            continue
        seen.add(q["q"])
        steps, again = 0, True
        while again and steps < 150:
            again = False
            for v in traits.smaller(q):
                steps += 1
                try:
                    w = types_wrong(v, bdir, "s")
                except (ValueError, KeyError):
                    continue
                # a variant the model cannot judge may well not compile
                if w and ("does not compile" in w) == ("does not compile" in why):
                    q, why, again = v, w, True
                    break
                if steps >= 150:
                    break
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, q["q"]))
        with open(path, "w") as f:
            json.dump(dict(property=pid, sub=q["q"], types=q, case=traits.describe(q), message=why,
                           how="python3 vp.py replay " + os.path.relpath(path, VERIF)), f, indent=1)
        print("--- %s / %s\n  case: %s\n  %s" % (pid, q["q"], traits.describe(q), why))
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
    ev = dict(property=pid, tier=tier, seed=seed, level=conf.get("level", "exploration"),
              coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=conf["rule"],
                            samples=samples[:24], sub_properties=per, programs=programs, errors=errors),
              assumptions=conf.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(lines))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not keep:
        shutil.rmtree(bdir, ignore_errors=True)
    if lines:
        print("\n".join(lines))
        sys.stdout.flush()
        sys.exit(1)
    if errors:
        print("\n".join(errors))
        die("%s: no verdict" % pid)
    print("%s held: %d cases, %d distinct non-trivial, total %.0fs" %
          (pid, evals, len(hashes), time.time() - t0))
    sys.exit(0)


def known_findings():
    """Entries of KNOWN_FINDINGS.jsonl that are recorded and not repaired."""
    out = []
    try:
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            m = re.match(r"known: property=(\w+) (.*)", line)
            if m:
                out.append(dict(property=m.group(1), what=m.group(2).strip()))
    except FileNotFoundError:
        pass
    return out


def replay(path):
    r = json.load(open(path))
    pid = r["property"]
    bdir = os.path.join(VERIF, "_build", pid)
    if "types" in r:
        sys.path.insert(0, os.path.join(VERIF, "lib"))
        shutil.rmtree(bdir, ignore_errors=True)
        os.makedirs(bdir)
        gen_config(bdir)
        why = types_wrong(r["types"], bdir, "replay")
        print(r["case"], "\n ", why or "right")
        shutil.rmtree(bdir, ignore_errors=True)
        if why:
            print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1 if why else 0)
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    ENV["TMPDIR"] = os.path.join(bdir, "tmp")
    os.makedirs(ENV["TMPDIR"])
    bins = build(pid, CHECKS[pid], bdir)
    if r["sub"] == "interface":  # it compiles
        sys.exit(0)
    b = [x for x in bins if os.path.basename(x) == r["binary"]][0]
    if r.get("batch"):
        rc, log = sh([b] + r["batch"], timeout=3000)
        rc = 0 if rc == 0 else 10
    else:
        rc, log = do_replay(b, r["sub"], r["reproduce"], r.get("effort", 1), r.get("hang"))
    print(log)
    shutil.rmtree(bdir, ignore_errors=True)
    if rc == 10:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    sys.exit(0 if rc == 0 else 2)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay", "list", "setup"])
    ap.add_argument("arg", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.cmd == "check" and CHECKS[a.arg].get("types"):
        check_types(a.arg, a.tier, a.scale, a.keep)
    elif a.cmd == "check":
        check(a.arg, a.tier, a.only, a.scale, a.keep)
    elif a.cmd == "replay":
        replay(a.arg)
    elif a.cmd == "list":
        for k, v in CHECKS.items():
            print(k, " ".join(s for b in v["bins"] for s in b["src"]) or "lib/traits.py")
    else:
        for tool in (CXX, "python3"):
            if not shutil.which(tool):
                die("missing " + tool)
        if not os.path.exists("/usr/include/rapidcheck.h"):
            die("missing rapidcheck")
        print("setup ok: %d checks" % len(CHECKS))


main()
