#!/usr/bin/env python3
"""Mutation analysis of the harnesses: which small changes of nsca-ng does no scenario notice?

  mutate.py HARNESS FILE... [--every=N] [--offset=K] [--limit=SECONDS]   (files relative to /repo)

Works on a scratch copy of /repo; prints one line per mutant which survives."""
import os, re, shutil, subprocess, sys, tempfile, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOISE = re.compile(r"^\s*(debug|info|notice)\(")


def mutants(path):
    L = open(path).read().split("\n")
    infn = False
    for i, l in enumerate(L):
        if l == "{":
            infn = True
        elif l == "}":
            infn = False
        if not infn and not path.endswith(".xs"):
            continue
        s = l.strip()
        if not s or s.startswith(("/*", "*", "//", "#")) or NOISE.match(l):
            continue
        def m(new, kind):
            if new != l:
                yield i, l, new, kind
        st = re.match(r"^(\s+)(?!return|case|default|break|goto|else|die|exit|struct|static|const|char|int|size_t|void|long|unsigned|bool)([^;{}]*\S);$", l)
        if st and s.count("(") == s.count(")") and not re.match(r"^\w[\w\s\*]*\s\**\w+(\s*=.*)?;$", s):
            yield from m(st.group(1) + ";", "delete")
        c = re.match(r"^(.*\b(?:if|while) )\((.*)\)( \{)?$", l)
        if c and c.group(2).count("(") == c.group(2).count(")"):
            yield from m("%s(!(%s))%s" % (c.group(1), c.group(2), c.group(3) or ""), "negate")
        for a, b in ((" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" && ", " || "), (" || ", " && "),
                     (" + 1", ""), (" - 1", ""), (" + ", " - "), ("== 0", "!= 0"), ("true", "false"), ("false", "true")):
            for x in re.finditer(re.escape(a), l):
                if '"' in l[:x.start()] and l[:x.start()].count('"') % 2:
                    continue
                yield from m(l[:x.start()] + b + l[x.end():], "%s->%s" % (a.strip(), b.strip()))
        for x in re.finditer(r"(?<![\w\"'.])(\d+)(?![\w\"'.])", l):
            if l[:x.start()].count('"') % 2:
                continue
            yield from m(l[:x.start()] + str(int(x.group(1)) + 1) + l[x.end():], "const+1")
        if re.match(r"^\s*(\|\||&&) ", l):
            t = re.match(r"^(\s*)(\|\||&&) (.*)$", l)
            yield from m(t.group(1) + ("&& " if t.group(2) == "||" else "|| ") + t.group(3), "junction")


def main():
    opt = dict(a[2:].split("=", 1) for a in sys.argv[1:] if a.startswith("--"))
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    harness, files = args[0].split(","), args[1:]
    every, off, limit = int(opt.get("every", 1)), int(opt.get("offset", 0)), opt.get("limit", "60")
    w = tempfile.mkdtemp(prefix="mut")
    r = os.path.join(w, "repo")
    subprocess.check_call("mkdir %s && git -C /repo archive HEAD | tar -x -C %s && cp -a %s/*.py %s/mc %s/config %s/" % (r, r, V, V, V, w), shell=True)
    env = dict(os.environ, VERIF_REPO=r, MC_TMP=w, LC_ALL="C", TZ="UTC", PYTHONDONTWRITEBYTECODE="1",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=1")
    n = killed = bad = 0
    try:
        for f in files:
            p = os.path.join(r, f)
            orig = open(p).read()
            ms = list(mutants(p))[off::every]
            print("# %s: %d mutants" % (f, len(ms)), flush=True)
            for i, old, new, kind in ms:
                L = orig.split("\n")
                L[i] = new
                open(p, "w").write("\n".join(L))
                n += 1
                dead = False
                for h in harness:
                    b = subprocess.run([sys.executable, "vbuild.py", h], cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if b.returncode:
                        bad += 1
                        dead = True
                        break
                    try:
                        x = subprocess.run([os.path.join(w, "build", h), "--first", "--limit", limit], cwd=w, env=env,
                                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
                        rc = x.returncode
                    except subprocess.TimeoutExpired:
                        rc = -9
                    if rc:
                        dead = True
                        killed += 1
                        break
                if not dead:
                    print("SURVIVED %s:%d [%s] %s => %s" % (f, i + 1, kind, old.strip(), new.strip()), flush=True)
            open(p, "w").write(orig)
        print("# %d mutants, %d don't build, %d detected, %d survived" % (n, bad, killed, n - bad - killed))
    finally:
        shutil.rmtree(w, ignore_errors=True)


main()
