"""Builds /verif/seeded/<id>/ from a bug spec, after confirming it in a scratch copy.

usage: mkbug.py SPEC.py...      (spec: PROP, NEEDS, BREAKS, EDITS=[(file, old, new)...], DEMO=python text)
A spec is kept only if: every removed line is a line of the original repository, the build and all
89 stable tests pass with the patch, and demo.sh exits 0 without and nonzero with it.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

BASE = "2a414fd"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def main(paths):
    scratch = tempfile.mkdtemp(prefix="mkbug.")
    try:
        repo = os.path.join(scratch, "repo")
        sh(["cp", "-a", "/repo", repo], "/")
        for path in paths:
            print(os.path.basename(path), one(path, repo, scratch), flush=True)
    finally:
        shutil.rmtree(scratch)


def original_lines(repo, name):
    out = sh(["git", "blame", "-s", "-l", "--root", "HEAD", "--", name], repo).stdout
    base = sh(["git", "rev-parse", BASE], repo).stdout.strip()
    return [l.lstrip("^").split(" ")[0][:39] == base[:39] for l in out.splitlines()]


def one(path, repo, scratch):
    spec = runpy.run_path(path)
    bug = os.path.splitext(os.path.basename(path))[0]
    sh("git checkout -q -- . && git clean -fdq", repo)
    for name, old, new in spec["EDITS"]:
        f = os.path.join(repo, name)
        text = open(f).read()
        if text.count(old) != 1:
            return "REJECT: %d matches in %s of %r" % (text.count(old), name, old)
        open(f, "w").write(text.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=repo, stdout=subprocess.PIPE).stdout
    mine, removed = [], 0
    for name in {e[0] for e in spec["EDITS"]}:
        orig = original_lines(repo, name)
        cur = 0
        for l in sh(["git", "diff", "-U0", "--", name], repo).stdout.splitlines():
            if l.startswith("@@"):
                cur = int(l.split()[1][1:].split(",")[0])
            elif l.startswith("-") and not l.startswith("---"):
                removed += 1
                if not orig[cur - 1]:
                    mine.append(l)
                cur += 1
    if mine or not removed:
        return "REJECT: removed=%d, lines of own commits: %s" % (removed, mine)
    demo = os.path.join(scratch, "demo")
    shutil.rmtree(demo, ignore_errors=True)
    os.makedirs(demo)
    open(os.path.join(demo, "demo.py"), "w").write(spec["DEMO"].lstrip("\n"))
    open(os.path.join(demo, "demo.sh"), "w").write(
        '#!/bin/bash\n# exits 0 on the unchanged tree, nonzero with the change; run from the repository\n'
        'here="$(cd "$(dirname "$0")" && pwd)"\n'
        'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
    if "probe" in spec["DEMO"]:
        shutil.copy(os.path.join(VERIF, "tools", "probe.py"), demo)
    os.chmod(os.path.join(demo, "demo.sh"), 0o755)
    bad = sh(["bash", os.path.join(demo, "demo.sh")], repo, timeout=300)
    if bad.returncode == 0:
        return "REJECT: demo passes with the change"
    clean = sh(["bash", os.path.join(demo, "demo.sh")], "/repo", timeout=300)
    if clean.returncode:
        return "REJECT: demo fails on the unchanged tree\n" + clean.stdout
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=repo)
    test = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-n", "4"]
              if False else ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider"],
              repo, env=env, timeout=600)
    tail = test.stdout.strip().splitlines()[-1]
    if "89 passed" not in tail or "failed" in tail:
        return "REJECT: tests: " + "\n".join(test.stdout.strip().splitlines()[-6:])
    out = os.path.join(VERIF, "seeded", bug)
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(demo, out)
    open(os.path.join(out, "patch.diff"), "wb").write(diff)
    json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    return "ok; demo with the change: " + (bad.stdout.strip().splitlines() or [""])[-1][:150]


if __name__ == "__main__":
    main(sys.argv[1:])
