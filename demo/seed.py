#!/usr/bin/env python3
"""Makes and verifies the planted changes under seeded/.

  seed.py make SPEC.py...     a spec defines: id, prop, edits [(file, old, new)], needs, what, demo
  seed.py verify [ID...]      clean: demo passes; patched: builds, stable tests pass, demo fails
  seed.py checks [ID...]      which checks report the change

Works on a copy of /repo which is bind-mounted over /repo in private
namespaces, so that the real /repo isn't touched."""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make(spec):
    g = {}
    exec(open(spec).read(), g)
    wt = tempfile.mkdtemp(prefix="seedwt")
    try:
        sh("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % (wt, wt))
        for f, old, new in g["edits"]:
            p = os.path.join(wt, f)
            t = open(p).read()
            assert t.count(old) == 1, (g["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        d = os.path.join(S, g["id"])
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(["git", "-C", wt, "diff"], stdout=subprocess.PIPE).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
    finally:
        shutil.rmtree(wt)
    shutil.copy(os.path.join(V, "demo", "nsca.py"), d)
    for e, text in g.get("extra", {}).items():
        open(os.path.join(d, e), "w").write(text.lstrip("\n"))
    if g.get("demo_sh"):
        open(os.path.join(d, "demo.sh"), "w").write(g["demo_sh"])
    else:
        open(os.path.join(d, "demo.sh"), "w").write(
            '#!/bin/sh\nexec env PYTHONDONTWRITEBYTECODE=1 python3 "$(dirname "$0")/demo.py"\n')
    if "demo" in g:
        open(os.path.join(d, "demo.py"), "w").write(
            "import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom nsca import *\n" + g["demo"].lstrip("\n"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=g["prop"], needs=g["needs"], what_it_breaks=g["what"]),
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("made", g["id"])


INNER = r'''
mount --bind %(c)s /repo || exit 99
ip link set lo up
%(body)s
'''


def ns(c, body, timeout=900):
    try:
        return sh("unshare -Urmn --kill-child -pf --mount-proc sh -c '%s'" % (INNER % dict(c=c, body=body)).replace("'", "'\\''"), timeout=timeout)
    except subprocess.TimeoutExpired:
        class R: pass
        r = R(); r.returncode = 98; r.stdout = "TIMEOUT"
        return r


def verify(ids):
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    c = tempfile.mkdtemp(prefix="seedrc")
    os.rmdir(c)
    sh("cp -a /repo %s" % c)
    bad = []
    try:
        r = ns(c, "cd /repo && git checkout -q -- . && bash /opt/vp/build.sh")
        assert r.returncode == 0, r.stdout[-2000:]
        for i in ids:
            r = ns(c, "cd /repo && bash %s/%s/demo.sh" % (S, i), 300)
            if r.returncode != 0:
                print("BAD", i, "demo fails on the clean tree:", r.stdout[-1500:])
                bad.append(i)
        for i in ids:
            if i in bad:
                continue
            out = tempfile.mktemp()
            r = ns(c, "cd /repo && git apply %s/%s/patch.diff && bash /opt/vp/build.sh" % (S, i))
            if r.returncode != 0:
                print("BAD", i, "doesn't build", r.stdout[-1500:])
                bad.append(i)
            else:
                ns(c, "cd /repo && bash /opt/vp/test.sh %s" % out)
                failed = set(base) - set(json.load(open(out))["passed"])
                d = ns(c, "cd /repo && bash %s/%s/demo.sh" % (S, i), 300)
                ok = not failed and d.returncode != 0
                print("OK " if ok else "BAD", i, "tests failed: %s" % sorted(failed) if failed else "tests pass;",
                      "demo:", d.returncode, d.stdout.strip().splitlines()[-1:] )
                if not ok:
                    bad.append(i)
            ns(c, "cd /repo && git checkout -q -- .")
            sys.stdout.flush()
    finally:
        shutil.rmtree(c, ignore_errors=True)
    print("bad:", bad)
    return bad


def checks(ids, props=None):
    sys.path.insert(0, V)
    from props import PROPS
    for i in ids:
        m = json.load(open(os.path.join(S, i, "meta.json")))
        c = tempfile.mkdtemp(prefix="seedck")
        try:
            sh("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git apply %s/%s/patch.diff" % (c, c, S, i))
            v = os.path.join(c, "V")
            sh("mkdir %s && cp -a %s/*.py %s/mc %s/config %s/known_findings.txt %s/" % (v, V, V, V, V, v))
            res = []
            for p in (props or [m["property"]]):
                if p not in PROPS:
                    res.append(p + ":no check")
                    continue
                r = sh("cd %s && VERIF_REPO=%s python3 check.py %s --tier quick" % (v, c, p))
                res.append("%s:%s" % (p, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + p in r.stdout else
                                      "missed" if r.returncode == 0 else "ERROR %d %s" % (r.returncode, r.stdout[-800:])))
            print(i, " ".join(res))
            sys.stdout.flush()
        finally:
            shutil.rmtree(c, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[2:]
    if sys.argv[1] == "make":
        for s in a:
            make(s)
    else:
        props = None
        if a and a[0].startswith("--props="):
            props = a.pop(0)[8:].split(",")
        ids = a or sorted(os.listdir(S))
        if sys.argv[1] == "verify":
            verify(ids)
        elif sys.argv[1] == "checks":
            if props == ["all"]:
                sys.path.insert(0, V)
                from props import PROPS
                props = sorted(PROPS)
            checks(ids, props)
