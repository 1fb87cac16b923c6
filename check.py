#!/usr/bin/env python3
"""Decides one property:  check.py <property> [--tier quick|thorough]

Builds the harnesses which enumerate executions for the property from /repo's
working tree, runs them, writes evidence/<property>.json and prints
VIOLATION / KNOWN-FINDING lines.  Exit status: 0 held, 1 violated, 2 trouble.
"""
import json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import vbuild
from props import PROPS

EVID = os.path.join(VERIF, "evidence")
RULE = ("every choice sequence up to the deviation bound is executed on the code under test; "
        "an execution is non-trivial if its externally visible outcome differs from all others")


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                # finding: property=<id> harness=<exe> scenario=<name> match=<text> :: <what>
                head, _, what = l[8:].partition("::")
                d = dict(f.split("=", 1) for f in head.split() if "=" in f)
                d["what"] = what.strip()
                d["match"] = d.get("match", "").replace("_", " ")
                out.append(d)
    return out


def asan(harness):
    """Memory that isn't initialised holds newlines, zero bytes, or 0xbe, depending on the harness."""
    fill = {"server-aio": 10, "server-ssl": 0, "server-start": 10, "client": 10, "python": 10}
    return ("detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:handle_abort=1:"
            "max_malloc_fill_size=65536:malloc_fill_byte=%d" % fill.get(harness, 190))


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="nsca-mc-")
    rc, viol, per = 0, [], []
    limit = 240 if tier == "quick" else 3000
    try:
        try:
            exes = {}
            for n in spec["harness"]:
                try:
                    exes[n] = vbuild.build_cached(n, os.path.join(VERIF, "build"))
                except vbuild.Unmodelled as e:
                    n = vbuild.FALLBACK[n]
                    print("not in the model of libssl: %s; using %s" % (e, n))
                    exes[n] = vbuild.build_cached(n, os.path.join(VERIF, "build"))
        except vbuild.BuildError as e:
            print("cannot build the harness:\n%s" % e)
            return 2
        env = dict(os.environ, MC_TMP=scratch, LC_ALL="C", TZ="UTC")
        for k in ("NOTIFY_SOCKET", "WATCHDOG_USEC", "LISTEN_FDS", "LISTEN_PID"):
            env.pop(k, None)
        running = []
        for n in exes:
            js = os.path.join(scratch, n + ".json")
            cmd = [exes[n], "--prop", prop, "--out", js, "--first", "--limit", "%d" % limit]
            if tier == "thorough":
                cmd.append("--thorough")
            tmp = os.path.join(scratch, n)
            os.mkdir(tmp)
            out = open(os.path.join(scratch, n + ".out"), "w+", errors="replace")
            running.append((n, js, out, subprocess.Popen(cmd, env=dict(env, MC_TMP=tmp, ASAN_OPTIONS=asan(n)), stdout=out,
                                                         stderr=subprocess.STDOUT, cwd=tmp)))
        for n, js, out, p in running:
            p.wait()
            out.seek(0)
            sys.stdout.write(out.read()[-12000:])
            out.close()
        for n, js, out, p in running:
            if p.returncode not in (0, 1):
                print("harness %s failed with status %d" % (n, p.returncode))
                return 2
            data = json.load(open(js))
            for s in data["scenarios"]:
                s["harness"] = n
                per.append(s)
                if s["failed"]:
                    viol.append(s)
            if viol:
                break
        if not per:
            print("no scenario covers %s" % prop)
            return 2
        kf = [k for k in known_findings() if k.get("property") == prop]
        real = []
        for s in viol:
            k = next((k for k in kf if k.get("harness", s["harness"]) == s["harness"]
                      and k.get("scenario") == s["name"] and k["match"] in s["message"]), None)
            if k is None:
                real.append(s)
        for k in kf:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        for s in real:
            path = os.path.join(EVID, "replay", "%s-%s.txt" % (prop, s["name"]))
            with open(path, "w") as f:
                f.write("property: %s\nharness: %s\nscenario: %s\nchoices: %s\n%s\n\nreplay with:\n"
                        "  cd %s && python3 check.py --replay %s\n"
                        % (prop, s["harness"], s["name"], s["choices_seq"], s["message"], VERIF, path))
            print("%s: %s" % (s["name"], s["message"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            rc = 1
        samples = []
        for s in per:
            for x in s["samples"][:2]:
                if len(samples) < 24:
                    samples.append("[%s] %s" % (s["name"], x))
        if not samples:
            samples = ["[%s] %d executions" % (s["name"], s["executions"]) for s in per[:5]]
        execs = sum(s["executions"] for s in per)
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
            "coverage": {
                "states": sum(s["states"] for s in per),
                "transitions": sum(s["transitions"] for s in per),
                "traces_validated_against_impl": execs,
                "distinct_outcomes": sum(s["nontrivial"] for s in per),
                "rule": RULE,
                "samples": samples,
                "exhausted_within_bounds": all(s["complete"] for s in per),
                "diverging_replays": sum(s["diverged"] for s in per),
                "scenarios": [{k: s[k] for k in ("harness", "name", "dev", "executions", "states", "transitions",
                                                 "choices", "nontrivial", "maxdepth", "complete", "wall")} for s in per],
                "bounds": "per scenario: at most `dev` deviations from the default schedule; all data choices",
            },
            "assumptions": spec.get("assumptions", []),
            "violations": len(real),
            "wall_s": round(time.time() - t0, 2),
        }
        with open(os.path.join(EVID, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d executions, %d states, %d transitions, %.1f s: %s" % (
            prop, execs, ev["coverage"]["states"], ev["coverage"]["transitions"], ev["wall_s"],
            "VIOLATED" if rc else "held"))
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    d = {}
    for l in open(path):
        k, _, v = l.partition(": ")
        if k in ("harness", "scenario", "choices"):
            d[k] = v.strip()
    exe = vbuild.build_cached(d["harness"], os.path.join(VERIF, "build"))
    scratch = tempfile.mkdtemp(prefix="nsca-mc-")
    try:
        env = dict(os.environ, ASAN_OPTIONS=asan(d["harness"]), MC_TMP=scratch, LC_ALL="C", TZ="UTC")
        return subprocess.run([exe, "--scenario", d["scenario"], "--replay", d.get("choices", "")],
                              env=env, cwd=scratch).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(replay(sys.argv[2]) if sys.argv[1] == "--replay" else main())
