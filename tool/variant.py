#!/usr/bin/env python3
"""variant.py PATCH CHECK...: run checks on a scratch copy of /repo's sources with PATCH applied (never used by the checks)"""
import sys, os, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(patch, ids, show=True, extra=()):
    d = tempfile.mkdtemp(prefix="var", dir="/tmp")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
        if patch != "-":
            subprocess.run(["git", "-C", d + "/r", "apply", os.path.abspath(patch)], check=True)
        env = dict(os.environ, VP_REPO=d + "/r", VP_EVID=d + "/e")
        res = {}
        ps = {i: subprocess.Popen(["python3", V + "/run.py", i] + list(extra), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for i in ids}
        for i, p in ps.items():
            out, _ = p.communicate()
            res[i] = (p.returncode, out)
            if show:
                print("== %s rc=%d" % (i, p.returncode))
                print("\n".join(l[:int(os.environ.get("W","400"))] for l in out.splitlines()[-25:]))
        return res
    finally:
        shutil.rmtree(d)
if __name__ == "__main__":
    run(sys.argv[1], sys.argv[2:])
