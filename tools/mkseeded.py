#!/usr/bin/env python3
"""Generate and validate the planted bugs of /verif/seeded from tools/bugs/*.py.

Every module in tools/bugs defines BUGS, a list of dicts with
  id, property, file, edits=[(old, new), ...], needs, breaks, demo
usage:  mkseeded.py make            write /verif/seeded/<id>/
        mkseeded.py test [ID ...]   validate (demo, tests, check) in a scratch copy
"""
import concurrent.futures as cf
import glob, importlib.util, json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SEED = os.path.join(ROOT, "seeded")
DEMO_SH = '#!/bin/sh\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def load():
    bugs = []
    for f in sorted(glob.glob(os.path.join(HERE, "bugs", "*.py"))):
        spec = importlib.util.spec_from_file_location("b", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        bugs += m.BUGS
    ids = [b["id"] for b in bugs]
    assert len(ids) == len(set(ids)), "duplicate ids"
    return bugs


def scratch():
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    return d


BASE = "beae325"


def foreign(r, diff):
    """removed lines that are not lines of the original repository"""
    import re
    bad, f, n = [], None, 0
    for l in diff.splitlines():
        if l.startswith("--- "):
            f = l[6:]
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            w = subprocess.run(["git", "-C", r, "blame", "-s", "-L", f"{n},{n}", "HEAD", "--", f], capture_output=True, text=True).stdout.lstrip("^")
            if not w.startswith(BASE[:7]):
                bad.append(l[1:].strip())
            n += 1
        elif l.startswith(" "):
            n += 1
    return bad


def make(bugs):
    d = scratch()
    r = d + "/repo"
    try:
        for b in bugs:
            out = os.path.join(SEED, b["id"])
            os.makedirs(out, exist_ok=True)
            edits = b["edits"] if isinstance(b["edits"], list) else [b["edits"]]
            for e in edits:
                f, old, new = (b["file"],) + tuple(e) if len(e) == 2 else e
                p = os.path.join(r, "pyproximal", f)
                s = open(p, newline="").read()
                if s.count(old) != 1:
                    raise SystemExit(f"{b['id']}: {s.count(old)} matches of {old!r}")
                open(p, "w", newline="").write(s.replace(old, new))
            diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True, check=True).stdout
            subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
            bad = foreign(r, diff)
            if bad:
                print("***", b["id"], "changes lines of my own commits:", bad)
            open(out + "/patch.diff", "w").write(diff)
            open(out + "/demo.sh", "w").write(DEMO_SH)
            os.chmod(out + "/demo.sh", 0o755)
            open(out + "/demo.py", "w").write(b["demo"].strip() + "\n")
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(out + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(d)


def test_one(b):
    d = scratch()
    r = d + "/repo"
    res = dict(id=b["id"])
    env = dict(os.environ, PYTHONPATH=r, VERIF_REPO=r, VERIF_OUT=d + "/out", VERIF_SEED="1", VERIF_TIER="quick",
               PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    os.makedirs(d + "/out")
    try:
        sd = os.path.join(SEED, b["id"])
        dd = d + "/demo"
        shutil.copytree(sd, dd)
        run = lambda c: subprocess.run(c, cwd=r, env=env, capture_output=True, text=True)
        a = run(["sh", dd + "/demo.sh"])
        p = run(["git", "apply", sd + "/patch.diff"])
        z = run(["sh", dd + "/demo.sh"])
        res["demo"] = "ok" if a.returncode == 0 and z.returncode != 0 and p.returncode == 0 else \
            f"BAD clean={a.returncode} patched={z.returncode} apply={p.returncode} {a.stderr[-300:]} {p.stderr[-200:]}"
        res["demo_says"] = (z.stderr.strip().splitlines() or [""])[-1][:150]
        if not os.environ.get("NOTESTS"):
            t = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "pytests"])
            res["tests"] = "ok" if t.returncode == 0 else "BAD " + t.stdout[-400:]
        if not os.environ.get("NOCHECK"):
            props = os.environ.get("PROPS", b["property"]).split(",")
            for pr in props:
                c = run([ROOT + "/check.sh", pr])
                v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
                res[pr] = ("caught" if c.returncode == 1 and v else f"MISSED rc={c.returncode}") 
    finally:
        shutil.rmtree(d)
    return res


def main():
    bugs = load()
    if sys.argv[1] == "make":
        make(bugs)
    else:
        sel = sys.argv[2:]
        bugs = [b for b in bugs if not sel or b["id"] in sel or b["property"] in sel]
        make(bugs)
        n = int(os.environ.get("JOBS", "4"))
        with cf.ThreadPoolExecutor(n) as ex:
            for r in ex.map(test_one, bugs):
                bad = r["demo"] != "ok" or r.get("tests", "ok") != "ok" or any("MISSED" in str(v) for v in r.values())
                print("***" if bad else "   ", json.dumps(r), flush=True)
                f = os.path.join(ROOT, "tools", "caught.json")
                allr = json.load(open(f)) if os.path.exists(f) else {}
                allr.setdefault(r["id"], {}).update({k: v == "caught" for k, v in r.items() if re.fullmatch(r"C\d\d", k)})
                json.dump(allr, open(f, "w"), indent=0, sort_keys=True)


main()
