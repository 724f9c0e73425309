"""Makes /verif/seeded/<id>/ from the bugs in tools/bugs.py, after confirming each in a scratch copy of /repo:
the patch applies, the stable tests pass with it, the demonstration passes without it and fails with it.

    python3 tools/plant.py [id ...]          makes them
    python3 tools/plant.py --check [id ...]  also runs the property's quick check against the patched copy
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from bugs import BUGS  # noqa: E402

DEMO = """#!/bin/bash
# run with cwd /repo: exits 0 if the code is right
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pathmon
PYTHONPATH="$PWD:$here" exec python3 "$here/demo.py"
"""
TESTS = ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"]


def run(args, cwd, env=None):
    return subprocess.run(args, cwd=cwd, env=env, capture_output=True, text=True, timeout=600)


def main():
    args = sys.argv[1:]
    check = "--check" in args
    wanted = [a for a in args if not a.startswith("-")]
    base = {line.split()[0] for line in []}
    bad = 0
    for bug in BUGS:
        id = bug["id"]
        if wanted and id not in wanted: continue
        work = tempfile.mkdtemp(prefix="plant-")
        repo = os.path.join(work, "repo")
        try:
            subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
            blame = {}
            for file, old, new in bug["edits"]:
                path = os.path.join(repo, file)
                text = open(path).read()
                if text.count(old) != 1:
                    print(f"{id}: {text.count(old)} places in {file}")
                    break
                open(path, "w").write(text.replace(old, new))
            else:
                diff = run(["git", "diff", "-U3"], repo).stdout
                out = os.path.join(ROOT, "seeded", id)
                shutil.rmtree(out, ignore_errors=True)
                os.makedirs(out)
                open(os.path.join(out, "patch.diff"), "w").write(diff)
                open(os.path.join(out, "demo.sh"), "w").write(DEMO)
                open(os.path.join(out, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
                json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                          open(os.path.join(out, "meta.json"), "w"), indent=1)
                if bug.get("stubs"):
                    shutil.copytree(os.path.join(ROOT, "stubs", "FontDocTools"), os.path.join(out, "FontDocTools"), ignore=shutil.ignore_patterns("__pycache__"))
                os.chmod(os.path.join(out, "demo.sh"), 0o755)
                env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1")
                tests = run(TESTS, repo, env).returncode
                patched = run(["bash", os.path.join(out, "demo.sh")], repo)
                run(["git", "checkout", "-q", "--", "."], repo)
                plain = run(["bash", os.path.join(out, "demo.sh")], repo)
                # lines taken away must be lines of the original repository
                original = False
                for line in diff.splitlines():
                    if line.startswith("-") and not line.startswith("---") and line[1:].strip():
                        for f in {e[0] for e in bug["edits"]}:
                            if line[1:] in run(["git", "show", "bea8218:" + f], repo).stdout.splitlines(): original = True
                ok = tests == 0 and patched.returncode != 0 and plain.returncode == 0 and original
                result = ""
                if check:
                    subprocess.run(["git", "apply", os.path.join(out, "patch.diff")], cwd=repo, check=True)
                    r = run([os.path.join(ROOT, "bin", "check"), bug["property"], "--evidence", work], ROOT, dict(os.environ, PATHMON_REPO=repo))
                    result = "caught" if r.returncode == 1 else f"MISSED ({r.returncode})"
                    result += " " + (r.stdout.strip().splitlines() or [""])[1][:150] if r.returncode == 1 else ""
                print(f"{id}: {'ok' if ok else 'NOT OK'} tests {tests} demo patched {patched.returncode} plain {plain.returncode} original {original} {result}", flush=True)
                if not ok:
                    print(plain.stdout[-500:], plain.stderr[-800:])
                    print("patched:", patched.stderr[-500:])
                    bad += 1
                continue
            bad += 1
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
