#!/usr/bin/env python3
"""Make and confirm planted bugs (development tool; no check reads seeded/).

  seed.py make DEFS.py [ID...]    write seeded/<id>/ from definitions
  seed.py confirm [ID...]         demo clean / builds / tests pass / demo fails
  seed.py catch [ID...] [--tier]  run the property's check against each bug

Scratch copies live in /tmp/ffseed.<pid>.<id> and are removed afterwards.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, importlib.util
import xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
PY = "/opt/venv/bin/python"
DEMO_SH = '#!/bin/sh\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
HEAD = ("import os, sys\n"
        "sys.path.insert(0, os.path.join(os.getcwd(), 'src'))\n"
        "os.environ.setdefault('MPLBACKEND', 'Agg')\n")


class Skip(Exception):
    pass


def scratch(name):
    d = f"/tmp/ffseed.{os.getpid()}.{name}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    return d


def make(defs, only):
    spec = importlib.util.spec_from_file_location("defs", defs)
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for b in m.BUGS:
        if only and b["id"] not in only:
            continue
        d = scratch(b["id"])
        try:
            subprocess.run(["git", "-C", d, "checkout", "-q", "--", "."])
            for f, old, new in b["edits"]:
                p = os.path.join(d, "src/ff", f)
                s = open(p).read()
                # blank lines in the definition need not match those of the source
                rx = r"\n(?:[ \t]*\n)*".join(re.escape(x) for x in old.strip("\n").split("\n") if x.strip())
                ms = list(re.finditer(rx, s))
                if len(ms) != 1:
                    print(f"{b['id']}: {len(ms)} matches of {old!r} in {f}"); raise Skip
                open(p, "w").write(s[: ms[0].start()] + new.strip("\n") + s[ms[0].end():])
            diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
        except Skip:
            continue
        finally:
            shutil.rmtree(d)
        o = os.path.join(SEEDED, b["id"]); os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.sh", "w").write(DEMO_SH); os.chmod(o + "/demo.sh", 0o755)
        open(o + "/demo.py", "w").write(HEAD + b["demo"].strip() + "\n")
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(o + "/meta.json", "w"), indent=1)


def demo(i, cwd):
    env = dict(os.environ, PYTHONPATH=os.path.join(cwd, "src"))
    try:
        r = subprocess.run(["sh", f"{SEEDED}/{i}/demo.sh"], cwd=cwd, env=env, capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return r.returncode, (r.stdout + r.stderr)[-400:]


def tests(d):
    x = d + "/.junit.xml"
    env = dict(os.environ, PYTHONPATH=d + "/src", PYTHONHASHSEED="0", MPLBACKEND="Agg",
               OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    subprocess.run([PY, "-m", "pytest", "tests", "-m", "", "--timeout=120", "-q", "-n", "4",
                    "-p", "no:cacheprovider", f"--junitxml={x}"], cwd=d, env=env, capture_output=True)
    ok = set()
    for t in ET.parse(x).iter("testcase"):
        if not [c for c in t if c.tag in ("failure", "error", "skipped")]:
            ok.add(t.get("classname") + "::" + t.get("name"))
    return ok


def baseline():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b


def norm(n):
    return n.replace("/", ".").replace(".py", "").replace("::", ".").replace("..", ".")


def confirm(i):
    d = scratch(i)
    try:
        rc0, o0 = demo(i, d)
        a = subprocess.run(["git", "-C", d, "apply", f"{SEEDED}/{i}/patch.diff"], capture_output=True, text=True)
        if a.returncode:
            return i, "PATCH FAILS " + a.stderr
        c = subprocess.run([PY, "-m", "compileall", "-q", d + "/src"], capture_output=True)
        rc1, o1 = demo(i, d)
        ok = {norm(n) for n in tests(d)}
        want = {norm(n) for n in baseline_names()}
        miss = sorted(want - ok)
        s = "OK" if rc0 == 0 and rc1 != 0 and c.returncode == 0 and not miss else "BAD"
        msg = f"{s} demo {rc0}->{rc1} missing tests {len(miss)} {miss[:3]}"
        if rc0: msg += " | " + o0
        if s == "OK": msg += " | " + o1.strip().splitlines()[-1][:150] if o1.strip() else ""
        return i, msg
    finally:
        shutil.rmtree(d)


def baseline_names():
    b = baseline()
    for k in ("passed", "stable", "tests"):
        if k in b:
            v = b[k]
            return list(v)
    raise SystemExit(str(list(b)))


def catch(i, tier, props=None):
    meta = json.load(open(f"{SEEDED}/{i}/meta.json"))
    d = scratch(i)
    out = []
    try:
        subprocess.run(["git", "-C", d, "apply", f"{SEEDED}/{i}/patch.diff"], check=True)
        for p in props or [meta["property"]]:
            env = dict(os.environ, FFMON_REPO=d, FFMON_EVIDENCE=f"{d}/ev")
            try:
                r = subprocess.run([VERIF + "/check.sh", p, "--tier", tier], env=env, cwd=VERIF, capture_output=True, text=True, timeout=900)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
                w = [l for l in r.stdout.splitlines() if "violation" in l.lower() or "FAIL" in l][:2]
                out.append(f"{p}:{'CAUGHT' if r.returncode == 1 and v else 'missed rc=%d' % r.returncode} {w}")
            except subprocess.TimeoutExpired:
                out.append(f"{p}: TIMEOUT")
    finally:
        shutil.rmtree(d)
    return i, " ".join(out)[:600]


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    tier, props, jobs = "quick", None, 2
    for o in list(args):
        if o.startswith("--tier="): tier = o[7:]; args.remove(o)
        if o.startswith("--props="): props = o[8:].split(","); args.remove(o)
        if o.startswith("--jobs="): jobs = int(o[7:]); args.remove(o)
    if cmd == "make":
        make(args[0], set(args[1:]))
    else:
        ids = args or sorted(os.listdir(SEEDED))
        f = confirm if cmd == "confirm" else (lambda i: catch(i, tier, props))
        with cf.ThreadPoolExecutor(jobs) as ex:
            for i, r in ex.map(f, ids):
                print(i, r, flush=True)
