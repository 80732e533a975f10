"""plant.py SPEC.py [check]: makes seeded/<id>/ from a description of a planted bug and confirms it in a scratch copy of /repo.

SPEC.py defines `property`, `needs`, `breaks`, `edits` = [(file, old, new)] and `demo` (python text, run after demo_setup).
With `check` the property's check is then run against the copy with the bug. Development tool: no check uses it.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SETUP = '''"""Imports LEGWORK from the current folder, with stand-ins for the tables of g(n, e) if they are missing."""
import os
import sys

sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import numpy as np
from scipy.special import jv


def g(n, e):
    a = jv(n - 2, n * e) - 2 * e * jv(n - 1, n * e) + 2 / n * jv(n, n * e) + 2 * e * jv(n + 1, n * e) - jv(n + 2, n * e)
    b = jv(n - 2, n * e) - 2 * jv(n, n * e) + jv(n + 2, n * e)
    return n**4 / 32 * (a**2 + (1 - e**2) * b**2 + 4 / (3 * n**2) * jv(n, n * e)**2)


real_load = np.load


def load(file, *args, **kwargs):
    if os.path.basename(str(file)) == "harmonics.npz" and not os.path.exists(file):
        e = 1 - np.logspace(0, np.log10(0.1), 60)
        return {"e_lims": np.array([0.0, 0.9, 60]), "n_max": np.array(300.0),
                "g_vals": g(np.arange(1, 301.0)[None, :], e[:, None])}
    return real_load(file, *args, **kwargs)


np.load = load
import astropy.units as u
import legwork
from legwork import evol, psd, snr, source, strain, utils, visualisation
from legwork.source import Source, Stationary, Evolving
'''
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
env MPLBACKEND=Agg TMPDIR="$work" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here" timeout 250 /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, **kw):
    out, err = tempfile.TemporaryFile("w+"), tempfile.TemporaryFile("w+")
    p = subprocess.run(cmd, shell=True, text=True, stdout=out, stderr=err, stdin=subprocess.DEVNULL, timeout=900, **kw)
    out.seek(0), err.seek(0)
    p.stdout, p.stderr = out.read(), err.read()
    return p


def main():
    spec_file = sys.argv[1]
    name = os.path.splitext(os.path.basename(spec_file))[0]
    spec = runpy.run_path(spec_file)
    out = os.path.join(HERE, "seeded", name)
    os.makedirs(out, exist_ok=True)
    copy = tempfile.mkdtemp(prefix="plant-")
    repo = os.path.join(copy, "repo")
    try:
        sh(f"cp -a /repo {repo} && git -C {repo} checkout -q -- .")
        for file, old, new in spec["edits"]:
            path = os.path.join(repo, "src/legwork", file)
            text = open(path).read()
            assert text.count(old) == 1, (file, text.count(old), old)
            open(path, "w").write(text.replace(old, new))
        diff = sh(f"git -C {repo} diff").stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo_setup.py"), "w").write(SETUP)
        open(os.path.join(out, "demo.py"), "w").write("from demo_setup import *\n" + spec["demo"].lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        changed_original(diff)
        good = sh(os.path.join(out, "demo.sh"), cwd="/repo")
        bad = sh(os.path.join(out, "demo.sh"), cwd=repo)
        print(name, "demo: unchanged", good.returncode, "| patched", bad.returncode, (good.stderr + good.stdout)[-300:] if good.returncode else "",
              "|", (bad.stderr.strip().splitlines() or [""])[-1][:200])
        test = open("/opt/vp/test.sh").read().replace("/repo", repo)
        script = os.path.join(copy, "test.sh")
        open(script, "w").write(test.replace("docs/demos", "docs/demos"))
        env = dict(os.environ, PYTHONPATH=os.path.join(repo, "src"))
        sh(f"bash {script} {copy}/out.json", env=env)
        base = json.load(open("/opt/vp/BASELINE.json"))
        got = json.load(open(f"{copy}/out.json"))
        print("   stable tests:", verdict(base, got))
        if "check" in sys.argv:
            done = sh(f"{HERE}/check.sh {spec['property']}", env=dict(os.environ, DST_REPO=repo, DST_OUT=f"{copy}/o"))
            lines = [x for x in done.stdout.splitlines() if x.startswith(("signature", "detail", "VIOLATION", "ok"))]
            print("   check", spec["property"], "exit", done.returncode, "|", " | ".join(x[:260] for x in lines), done.stderr[-300:] if done.returncode not in (0, 1) else "")
    finally:
        shutil.rmtree(copy)


def changed_original(diff):
    """Warns if no line of the original repository is changed."""
    import re
    original = sh("cd /repo && git grep -h '' 8c7fb2b -- 'src/legwork/*.py'").stdout.splitlines()
    removed = [x[1:] for x in diff.splitlines() if re.match(r"-[^-]", x)]
    if not any(x in original for x in removed):
        print("   NOTE: removes no original line", removed[:3])


def verdict(base, got):
    def names(d):
        if isinstance(d, dict):
            for key in ("passed", "stable", "tests", "pass"):
                if key in d:
                    return set(names(d[key]))
            return {k for k, v in d.items() if v in ("passed", "pass", True)}
        return set(d)
    missing = names(base) - names(got)
    return "all pass" if not missing else "FAILED %s" % sorted(missing)[:4]


main()
