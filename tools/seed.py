"""seed.py [ID...]: builds /verif/seeded/ from tools/seeds/*.txt and confirms
each bug in a scratch copy: the patch applies, the demonstration fails with it
and passes without, the stable tests still pass.

A seed file:
    property: C01
    file: txstatsd/...
    needs: ...
    breaks: ...
    <<<<
    old text
    ====
    new text
    >>>>          (any number of these; a "file:" line in between changes file)
    demo:
    Python 2 source
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = os.path.join(ROOT, "tools", "seeds")
SH = """#!/bin/bash
# Run in the repository: 0 when the behaviour is as it should be.
HERE=$(cd "$(dirname "$0")" && pwd)
export LANG=C.UTF-8 LC_ALL=C.UTF-8 JYTHONPATH=/opt/jy/compat:$PWD:/opt/jy/lib
unset JAVA_HOME CLASSPATH
exec timeout 250 /usr/bin/jython -B "$HERE/demo.py"
"""


def read(name):
    text = open(os.path.join(SEEDS, name + ".txt")).read()
    head, demo = text.split("\ndemo:\n", 1)
    meta = dict(re.findall(r"^(property|needs|breaks): (.*)$", head, re.M))
    edits = []
    path = None
    for part in re.split(r"(?m)^(file: .*\n)", head):
        m = re.match(r"file: (.*)\n", part)
        if m:
            path = m.group(1)
            continue
        for m in re.finditer(r"(?ms)^<<<<\n(.*?)^====\n(.*?)^>>>>$", part):
            edits.append((path, m.group(1), m.group(2)))
    return meta, edits, demo


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, text=True,
                          capture_output=True, **kw)


def main():
    names = sys.argv[1:] or sorted(
        n[:-4] for n in os.listdir(SEEDS) if n.endswith(".txt"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for name in names:
        meta, edits, demo = read(name)
        work = tempfile.mkdtemp(prefix="seed", dir="/tmp")
        repo = os.path.join(work, "repo")
        try:
            shutil.copytree(os.environ.get("VERIF_REPO", "/repo"), repo, symlinks=True)
            out = os.path.join(work, "out")
            os.mkdir(out)
            open(os.path.join(out, "demo.py"), "w").write(demo)
            open(os.path.join(out, "demo.sh"), "w").write(SH)
            json.dump({"property": meta["property"], "needs": meta["needs"],
                       "what_it_breaks": meta["breaks"]},
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
            r = sh("bash %s/demo.sh" % out, repo)
            if r.returncode != 0:
                print(name, "BAD: demo fails on the clean tree\n",
                      (r.stdout + r.stderr)[-1500:])
                continue
            bad = False
            for path, old, new in edits:
                p = os.path.join(repo, path)
                s = open(p).read()
                if s.count(old) != 1:
                    print(name, "BAD: %d places in %s" % (s.count(old), path))
                    bad = True
                    break
                open(p, "w").write(s.replace(old, new))
            if bad:
                continue
            diff = sh("git diff", repo).stdout
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            r = sh("bash %s/demo.sh" % out, repo)
            if r.returncode == 0:
                print(name, "BAD: demo passes with the bug")
                continue
            why = (r.stdout + r.stderr).strip().splitlines()[-1]
            # The tests, on the copy.
            r = sh("sed 's#/repo#%s#g' /opt/vp/env.sh > %s/env.sh; "
                   "sed 's#/opt/vp/env.sh#%s/env.sh#' /opt/vp/test.sh "
                   "> %s/test.sh; bash %s/test.sh %s/res.json"
                   % (repo, work, work, work, work, work), work)
            passed = set(json.load(open(work + "/res.json"))["passed"])
            lost = sorted(stable - passed)
            if lost:
                print(name, "BAD: tests fail:", lost[:4])
                continue
            dest = os.path.join(ROOT, "seeded", name)
            if os.path.isdir(dest):
                shutil.rmtree(dest)
            shutil.copytree(out, dest)
            print(name, "ok   (%s)" % why[:100])
        finally:
            shutil.rmtree(work)
        sys.stdout.flush()


main()
