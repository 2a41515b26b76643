#!/usr/bin/env python3
"""seedtest.py ID...: confirm planted bugs in private copies of /repo (own mount namespace, /repo bind-mounted)
and run every registered check against them.  Prints one line per seed."""
import sys, os, subprocess, json, shutil, tempfile, concurrent.futures as cf
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(sid, checks, notest=False):
    d = os.path.join(H, "seeded", sid)
    meta = json.load(open(d + "/meta.json"))
    sc = tempfile.mkdtemp(prefix="seed_%s_" % sid, dir="/tmp")
    try:
        subprocess.check_call(["cp", "-a", "/repo/.", sc])
        dm = tempfile.mkdtemp(prefix="demo_", dir=sc)
        for f in os.listdir(d):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(d, f), dm)
        cs = checks or [meta["property"]]
        sh = r"""
set -e
mount --bind %(sc)s /repo
cd /repo
rel=$(basename %(dm)s)
bash /opt/vp/build.sh >/dev/null 2>&1
set +e
bash $rel/demo.sh >/tmp/%(t)s.d0 2>&1; echo "demo0 $?"
git apply %(d)s/patch.diff; echo "apply $?"
if [ %(nt)d = 0 ]; then
  bash /opt/vp/test.sh %(sc)s/out.json >/dev/null 2>&1
  python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('%(sc)s/out.json'))
d=set(b['stable'])-set(o['passed']); print('missing',len(d),list(d)[:5])"
else bash /opt/vp/build.sh >/dev/null 2>&1 ; fi
bash $rel/demo.sh >/tmp/%(t)s.d1 2>&1; echo "demo1 $?"
mkdir -p %(sc)s/.vf && cp -a %(H)s/check.py %(H)s/engine %(H)s/known_findings.txt %(sc)s/.vf/
for c in %(cs)s; do (cd %(sc)s/.vf && python3 check.py $c quick > out.$c 2>&1; echo "check $c $?"; grep -A1 VIOLATION out.$c | grep -v VIOLATION | head -3 | cut -c1-200); done
""" % dict(sc=sc, dm=dm, t=sid, d=d, H=H, cs=" ".join(cs), nt=int(notest))
        r = subprocess.run(["unshare", "-m", "bash", "-c", sh], capture_output=True, text=True)
        return sid, meta["property"], r.stdout + r.stderr[-500:]
    finally:
        shutil.rmtree(sc, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    nt = "--notest" in a
    a = [x for x in a if x != "--notest"]
    ck = [x[7:] for x in a if x.startswith("--check=")]
    ids = [x for x in a if not x.startswith("--")]
    if ids == ["all"]:
        ids = sorted(os.listdir(H + "/seeded"))
    with cf.ThreadPoolExecutor(3) as ex:
        for sid, p, o in ex.map(lambda s: one(s, ck, nt), ids):
            L = o.strip().split("\n")
            print("==", sid, p, " | ".join(L), flush=True)
