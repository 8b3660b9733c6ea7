"""mut.py FILE OLD NEW PROP... : run checks against a scratch copy with one textual replacement."""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(edits, props, show=True):
    d = tempfile.mkdtemp(prefix="mut")
    try:
        os.makedirs(d + "/src")
        shutil.copytree("/repo/src/tad_dftd4", d + "/src/tad_dftd4", ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new in edits:
            p = f"{d}/src/tad_dftd4/{f}"
            s = open(p).read()
            n = s.count(old)
            if not n:
                print("NOT FOUND:", f, old[:60])
                return {}
            open(p, "w").write(s.replace(old, new))
        env = dict(os.environ, SA_REPO=d, SA_EVIDENCE=d + "/ev")
        os.makedirs(d + "/ev", exist_ok=True)

        def one(p):
            r = subprocess.run([sys.executable, "-m", "sa", p], cwd=V, env=env, capture_output=True, text=True)
            return p, r.returncode, r.stdout
        out = {}
        with ThreadPoolExecutor(6) as ex:
            for p, rc, o in ex.map(one, props):
                out[p] = rc
                if show:
                    lines = [x[:300] for x in o.splitlines() if not x.startswith(("KNOWN", "  rule"))]
                    print(p, "rc", rc, "|", "\n   ".join(lines[:4]))
        return out
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    f, old, new, *props = sys.argv[1:]
    run([(f, old, new)], props)
