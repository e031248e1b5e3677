#!/usr/bin/env python3
"""Mutation survey: small random edits of the anchored files, each judged by the quick checks anchored there.

  mutate.py OUT.jsonl N [--files REGEX] [--seed S] [--workers W] [--scale X] [--props P,...]
Works in private copies below /tmp/mut; no check uses this file.  A survivor is either equivalent, outside
every statement, or a hole in a check: that is for a reader to decide.
"""
import argparse, json, os, random, re, shutil, subprocess, sys, threading, queue
HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(HERE)
SWAPS = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("+=", "-="), ("-=", "+="),
         ("*=", "/="), ("++", "--"), ("--", "++")]
RX = [(r"(?<![<>=!\-+*/&|])<(?![<=])(?=\s)", "<="), (r"(?<![<>=!\-])>(?![>=])(?=\s)", ">="),
      (r"(?<=[\w\])] )\+(?= [\w(\[])", "-"), (r"(?<=[\w\])] )-(?= [\w(\[])", "+"),
      (r"(?<=[\w\])]) ?\*(?= ?[\w(\[])(?![^(]*\))", "+"), (r"(?<=[\w\])] )/(?= [\w(\[])", "*"),
      (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"),
      (r"(?<![\w.])2(?![\w.])", "3"), (r"(?<![\w.])3(?![\w.])", "2"),
      (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"!(?=[\w(])(?!=)", ""),
      (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bbegin\b", "end"), (r"\bfirst\b", "second"),
      (r"\[ ?0 ?\]", "[1]"), (r"\[ ?1 ?\]", "[0]"), (r"\[ ?2 ?\]", "[1]"), (r"\brhs\b", "lhs"), (r"\blhs\b", "rhs"),
      (r"\bi\b", "j"), (r"\bj\b", "i"), (r"\bstd::forward<\w+>\((\w+)\)", r"\1"), (r"\bsize\(\)", "size() - 1"),
      (r"(\d\.\d+)", r"(\1 * 1.001)"), (r"(?<![\w.])-(?=\w)", "")]
DELETE = re.compile(r"^\s*(?!return|using|typedef|template|else|case|struct|class|public|private|#|//|\*|auto|const|int|break|throw)[\w:\->.\[\]()*+]+.*;\s*$")


def mutants(path):
    out = []
    lines = open(path, newline="").read().split("\n")
    block = False
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith("/*"):
            block = True
        if block:
            if "*/" in s:
                block = False
            continue
        if s.startswith(("//", "#", "*")) or "static_assert" in s or not s:
            continue
        code = l.split("//")[0]
        seen = set()

        def add(new):
            new += l[len(code):]
            if new != l and new not in seen:
                seen.add(new)
                out.append((n, l, new))
        for a, b in SWAPS:
            i = code.find(a)
            while i >= 0:
                if not (a in ("<=", ">=") and code[i - 1:i] in "<>-") and "template" not in code and "operator" not in code:
                    add(code[:i] + b + code[i + len(a):])
                i = code.find(a, i + len(a))
        if "template" not in code and "operator" not in code and "typename" not in code:
            for rx, b in RX:
                for m in re.finditer(rx, code):
                    add(code[:m.start()] + m.expand(b) + code[m.end():])
        if DELETE.match(code):
            add(re.match(r"\s*", code).group(0) + ";")
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("n", type=int, help="mutants per file")
    ap.add_argument("--files", default=".")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--scale", default="0.3")
    ap.add_argument("--props", default="")
    ap.add_argument("--repo", default="/repo")
    a = ap.parse_args()
    where = {}
    for l in open(os.path.join(TOP, "properties.jsonl")):
        p = json.loads(l)
        if a.props and p["id"] not in a.props.split(","):
            continue
        for f in p["anchors"]["files"]:
            where.setdefault(f, []).append(p["id"])
    rnd = random.Random(a.seed)
    work = []
    for f in sorted(where):
        if not re.search(a.files, f) or not os.path.isfile(os.path.join(a.repo, f)):
            continue
        ms = mutants(os.path.join(a.repo, f))
        rnd.shuffle(ms)
        work += [(f, m) for m in ms[:a.n]]
    rnd.shuffle(work)
    print(len(work), "mutants", flush=True)
    q = queue.Queue()
    for w in work:
        q.put(w)
    lock = threading.Lock()
    count = {}

    def worker(k):
        base = "/tmp/mut/%d_%d" % (os.getpid(), k)
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        subprocess.check_call(["git", "clone", "-q", a.repo, base + "/repo"])
        os.makedirs(base + "/v")
        for n in ("vp.py", "checks.py", "lib", "harness", "tools", "KNOWN_FINDINGS.txt"):
            subprocess.check_call(["cp", "-a", os.path.join(TOP, n), base + "/v"])
        env = dict(os.environ, VERIF_REPO=base + "/repo", VERIF_JOBS="2")
        while True:
            try:
                f, (n, old, new) = q.get_nowait()
            except queue.Empty:
                break
            p = base + "/repo/" + f
            t = open(p, newline="").read().split("\n")
            assert t[n] == old
            t[n] = new
            open(p, "w", newline="").write("\n".join(t))
            verdict = "survived"
            for pid in where[f]:
                try:
                    r = subprocess.run(["python3", "vp.py", "check", pid, "--scale", a.scale], cwd=base + "/v", env=env,
                                       capture_output=True, text=True, timeout=900)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 99
                if rc == 1:
                    verdict = ("rejected " if "-interface.json" in r.stdout else "killed ") + pid
                    break
                if rc == 99:
                    verdict = "timeout " + pid
                    break
                if rc:
                    verdict = "no-compile" if "does not compile" in r.stdout else "error " + r.stdout[-300:]
                    break
            subprocess.check_call(["git", "-C", base + "/repo", "checkout", "-q", "--", "."])
            with lock:
                v = verdict.split()[0]
                count[v] = count.get(v, 0) + 1
                with open(a.out, "a") as o:
                    o.write(json.dumps(dict(file=f, line=n + 1, old=old.strip(), new=new.strip(), verdict=verdict)) + "\n")
        shutil.rmtree(base, ignore_errors=True)
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print(count)


if __name__ == "__main__":
    main()
