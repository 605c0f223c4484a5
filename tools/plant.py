#!/usr/bin/env python3
"""
Plant a bug: plant.py SPEC.py [SPEC.py ...]

A specification defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO (the text of demo.py).  In a scratch
copy of /repo the edits are made, the stable tests run, and the demonstration must pass without and fail with
the edits; then seeded/<name of the specification>/ is written.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile, xml.etree.ElementTree as ET

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# run with cwd at the tree to be examined
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 QT_QPA_PLATFORM=offscreen
export PYTHONPATH="$PWD" HDF5_USE_FILE_LOCKING=BEST_EFFORT
SCRATCH=$(mktemp -d) || exit 9
export SCRATCH XDG_CONFIG_HOME="$SCRATCH/config" TMPDIR="$SCRATCH/tmp"
mkdir "$SCRATCH/config" "$SCRATCH/tmp" "$SCRATCH/work"
python "$(readlink -f "$(dirname "$0")")/demo.py"
status=$?
rm -rf "$SCRATCH"
exit $status
'''
ENV = dict(os.environ, PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", HOME="/root", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1",
           PYTHONHASHSEED="0", SETUPTOOLS_SCM_PRETEND_VERSION="1.0.0", QT_QPA_PLATFORM="offscreen")


def tests(tree, work):
    os.makedirs(work + "/config")
    os.makedirs(work + "/tmp")
    env = dict(ENV, XDG_CONFIG_HOME=work + "/config", TMPDIR=work + "/tmp", PYTHONPATH=tree)
    x = work + "/j.xml"
    subprocess.run(["python", "-m", "pytest", "-q", "--tb=no", "-p", "no:cacheprovider", "--timeout=300", "-o", "junit_family=xunit2", "--junitxml=" + x, "punx"], cwd=tree, env=env, stdout=subprocess.DEVNULL)
    out = work + "/out.json"
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", out, "junit:" + x], check=True, stdout=subprocess.DEVNULL)
    passed = {p.replace(tree, "/repo") for p in json.load(open(out))["passed"]}
    return sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - passed)


def demo(tree, folder):
    p = subprocess.run(["bash", folder + "/demo.sh"], cwd=tree, env=ENV, timeout=300, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode("utf8", "replace")[-600:]


def plant(spec):
    name = os.path.basename(spec)[:-3]
    s = runpy.run_path(spec)
    work = tempfile.mkdtemp(prefix="plant-")
    try:
        tree = work + "/repo"
        subprocess.run(["git", "clone", "-q", "/repo", tree], check=True)
        if os.path.exists("/repo/punx/_version.py") and not os.path.exists(tree + "/punx/_version.py"):
            shutil.copy("/repo/punx/_version.py", tree + "/punx/_version.py")
        folder = work + "/" + name
        os.makedirs(folder)
        open(folder + "/demo.sh", "w").write(DEMO_SH)
        open(folder + "/demo.py", "w").write(s["DEMO"].lstrip())
        good = demo(tree, folder)
        for f, old, new in s["EDITS"]:
            text = open(tree + "/" + f).read()
            if text.count(old) != 1:
                return "%s: %d places in %s for %r" % (name, text.count(old), f, old)
            open(tree + "/" + f, "w").write(text.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=tree, stdout=subprocess.PIPE, check=True).stdout
        open(folder + "/patch.diff", "wb").write(diff)
        bad = demo(tree, folder)
        if good[0] != 0 or bad[0] == 0:
            return "%s: demonstration %s without, %s with the change" % (name, good, bad)
        lost = tests(tree, work)
        if lost:
            return "%s: tests fail: %s" % (name, lost)
        json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), open(folder + "/meta.json", "w"), indent=1)
        dest = os.path.join(VERIF, "seeded", name)
        if os.path.exists(dest):
            shutil.rmtree(dest)
        shutil.copytree(folder, dest)
        return "%s: planted; demonstration says: %s" % (name, bad[1].strip()[-300:])
    finally:
        shutil.rmtree(work)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex:
        for text in ex.map(plant, sys.argv[1:]):
            print(text, flush=True)
