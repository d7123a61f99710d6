"""Confirm planted bugs in a scratch copy of the repository and keep them under seeded/.

usage: plant.py SPECFILE [--only id,id] [--check-only]
SPECFILE defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=python source)].
"""
import argparse, importlib.util, json, os, re, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("file")
ap.add_argument("--only")
ap.add_argument("--no-check", action="store_true")
a = ap.parse_args()
spec = importlib.util.spec_from_file_location("m", a.file)
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
PK = "src/cognitivefactory/interactive_clustering"
SCRATCH = "/tmp/work/plant%d" % os.getpid()
base = json.load(open("/opt/vp/BASELINE.json"))
DEMO_SH = '#!/bin/bash\n# exit 0: the property holds; nonzero: it is broken\nHERE=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python -W ignore "$HERE/demo.py"\n'
os.makedirs(SCRATCH, exist_ok=True)
for s in m.SEEDS:
    if a.only and s["id"] not in a.only.split(","):
        continue
    d = os.path.join(SCRATCH, "repo")
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    sd = os.path.join(SCRATCH, "seed")
    shutil.rmtree(sd, ignore_errors=True)
    os.makedirs(sd)
    open(sd + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(sd + "/demo.sh", 0o755)
    open(sd + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    clean = subprocess.run(["bash", sd + "/demo.sh"], cwd=d, capture_output=True, text=True, timeout=300)
    bad = False
    for f, old, new in s["edits"]:
        p = os.path.join(d, PK, f)
        t = open(p, newline="").read()
        if "\r\n" in t:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if t.count(old) < 1:
            print(s["id"], "EDIT NOT FOUND:", old[:70])
            bad = True
            break
        if t.count(old) > 1:
            print(s["id"], "note: %d matches, first used" % t.count(old))
        open(p, "w", newline="").write(t.replace(old, new, 1))
    if bad:
        continue
    diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True).stdout
    broken = subprocess.run(["bash", sd + "/demo.sh"], cwd=d, capture_output=True, text=True, timeout=300)
    env = dict(os.environ, PYTHONPATH=d + "/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")
    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-c", "config/pytest.ini", "--rootdir=" + d, "-q", "-p", "no:cacheprovider", "-p", "no:randomly", "--no-cov", "--timeout=300", "tests"], cwd=d, env=env, capture_output=True, text=True)
    tail = (t.stdout.strip().splitlines() or ["?"])[-1]
    ok_tests = "8 failed, 167 passed" in tail
    ok = clean.returncode == 0 and broken.returncode != 0 and ok_tests
    verdict = ""
    if not a.no_check:
        t0 = time.time()
        r = subprocess.run(["python3", ROOT + "/check.py", s["prop"]], cwd=ROOT, env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
        verdict = "%s:%s %s %.0fs" % (s["prop"], {0: "MISSED", 1: "caught"}.get(r.returncode, "ERR%d" % r.returncode), "".join(re.findall(r"undecided \d+", r.stdout)), time.time() - t0)
        if r.returncode not in (0, 1):
            print(r.stdout[-800:], r.stderr[-1500:])
    print("%-26s %s clean=%d broken=%d tests=%s | %s" % (s["id"], "KEPT" if ok else "REJECTED", clean.returncode, broken.returncode, tail if not ok_tests else "ok", verdict), flush=True)
    if not ok:
        print("   clean:", (clean.stderr or clean.stdout)[-300:], "\n   broken:", (broken.stderr or broken.stdout)[-300:])
        continue
    out = os.path.join(ROOT, "seeded", s["id"])
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(sd, out)
    open(out + "/patch.diff", "wb").write(diff)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
shutil.rmtree(SCRATCH, ignore_errors=True)
