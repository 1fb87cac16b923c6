#!/usr/bin/env python3
"""
Explores the contributed shell scripts: each case (options, environment, answers
of the programs they call, sequence of actions) of a bounded space is run on the
real script, with stand-ins (stub.c) for all programs with side effects, and
compared with a reference model.  All runs use an unprivileged user ID.
"""
import hashlib, itertools, json, os, pwd, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
SCRIPTS = "acknowledge debug_server disable_notifications downtime enable_notifications invoke_check nsca-ng.init".split()
STUBS = "send_nsca hostname getent date openssl xxd nsca-ng sleep".split()
UID = 64321
TOP = None


class Bad(Exception):
    pass


def setup(stub):
    """The directory everything happens in."""
    top = tempfile.mkdtemp(prefix="contrib-", dir=os.environ.get("MC_TMP"))
    p = top # let others pass
    while p != "/" and p != os.path.dirname(tempfile.gettempdir()):
        if os.stat(p).st_uid == os.getuid() and not os.stat(p).st_mode & 1:
            os.chmod(p, os.stat(p).st_mode | 0o711)
        p = os.path.dirname(p)
    for d in ("bin", "s", "w"):
        os.mkdir(os.path.join(top, d))
        os.chmod(os.path.join(top, d), 0o1777 if d == "w" else 0o755)
    shutil.copy(stub, os.path.join(top, "bin", "stub"))
    os.chmod(os.path.join(top, "bin", "stub"), 0o755)
    for n in STUBS + ["check_disk", "check_http", "my_plug", "plain"]:
        os.symlink("stub", os.path.join(top, "bin", n))
    for n in SCRIPTS:
        t = open(os.path.join(REPO, "contrib", n)).read()
        if n == "nsca-ng.init": # a fixed search path would bypass the stand-ins
            t = re.sub(r"(?m)^PATH='?[^\n']*'?$", "PATH='%s/bin:/usr/bin:/bin'" % top, t)
        with open(os.path.join(top, "s", n), "w") as f:
            f.write(t)
        os.chmod(os.path.join(top, "s", n), 0o755)
    return top


def enter():
    """Gives up all privileges, once per worker process."""
    if os.getuid() == 0:
        os.setgroups([])
        os.setresgid(UID, UID, UID)
        os.setresuid(UID, UID, UID)
    if os.getuid() == 0:
        raise SystemExit("cannot get rid of root's privileges")


class Run:
    """One directory for one case."""

    def __init__(self):
        self.d = tempfile.mkdtemp(dir=os.path.join(TOP, "w"))
        self.out = os.path.join(self.d, "out")
        os.mkdir(self.out)
        self.env = {"PATH": os.path.join(TOP, "bin") + ":/usr/bin:/bin", "STUB_OUT": self.out, "HOME": self.d, "LC_ALL": "C",
                    "USER": "joe", "TZ": "UTC"}
        self.steps = 0

    def done(self):
        shutil.rmtree(self.d, ignore_errors=True)

    def sh(self, name, args, shell=None, **env):
        e = dict(self.env)
        for k, v in env.items():
            if v is None:
                e.pop(k, None)
            else:
                e[k] = v
        cmd = (shell or []) + [os.path.join(TOP, "s", name)] + list(args)
        self.steps += 1
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             env={os.fsencode(k): os.fsencode(v) for k, v in e.items()}, cwd=self.d, start_new_session=True)
        try:
            o, err = p.communicate(timeout=30)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise Bad("%s hangs" % name)
        self.steps += len(os.listdir(self.out))
        return p.returncode, o.decode(errors="surrogateescape"), err.decode(errors="surrogateescape")

    def records(self, name):
        r = []
        for i in range(50):
            p = os.path.join(self.out, "%s.%d" % (name, i))
            if not os.path.exists(p):
                break
            b = open(p, "rb").read().decode(errors="surrogateescape")
            n, rest = b.split("\0", 1)
            a = rest.split("\0", int(n))
            r.append((a[:int(n)], a[int(n)]))
        return r


def effective(args, commands):
    """What send_nsca makes of its arguments."""
    c, conf, rest, i = False, None, [], 0
    while i < len(args):
        if args[i] == "-C":
            c = True
        elif args[i] == "-c":
            i += 1
            conf = args[i] if i < len(args) else "?"
        elif args[i].startswith("-c"):
            conf = args[i][2:]
        else:
            rest.append(args[i])
        i += 1
    if c != commands:
        raise Bad("send_nsca was called %s -C" % ("with" if c else "without"))
    return conf, rest


def q(s):
    return json.dumps(s)


def expect_sent(run, r, commands, conf, extra, data, status, noise=("",)):
    rc, out, err = r
    sent = run.records("send")
    if len(sent) != 1:
        raise Bad("send_nsca was called %d times (exit status %d: %s)" % (len(sent), rc, err.strip()))
    a, got = sent[0]
    c, rest = effective(a, commands)
    if c != conf:
        raise Bad("send_nsca was called with the configuration file %s instead of %s" % (q(c), q(conf)))
    if rest != extra:
        raise Bad("send_nsca was called with the arguments %s instead of %s" % (rest, extra))
    if not got.endswith("\n") or got.rstrip("\n") != data.rstrip("\n"):
        raise Bad("send_nsca was fed with %s instead of %s" % (q(got), q(data)))
    if (rc == 0) != (status == 0):
        raise Bad("exit status %d, although send_nsca's was %d" % (rc, status))
    if status == 0 and (out or err not in noise):
        raise Bad("unexpected output: %s" % q((out + err)[:200]))


def expect_refused(run, r, message=True):
    rc, out, err = r
    if run.records("send"):
        raise Bad("something was sent: %s" % q(run.records("send")[0][1]))
    if rc == 0:
        raise Bad("the exit status is 0 although nothing was sent")
    if message and not (err.strip() or out.strip()):
        raise Bad("failed without a message")


SHELLS = [None, ["bash", "--posix"]]
ARGS = [(None, []), ("", []), ("-o 5", ["-o", "5"])]
CONF = [None, "f.cfg", "/my dir/send nsca.cfg", "-x"]


def words(alphabet, n):
    for k in range(n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield "".join(t)


# ------------------------------------------------------------ invoke_check

def plugin_call(case, run):
    sh, (ea, extra), conf, host, svc, (plugin, defsvc), pargs, status = case
    a = []
    if svc is not None:
        a += ["-S", svc]
    if conf is not None:
        a += ["-c", conf]
    if host is not None:
        a += ["-H", host]
    plugin = plugin.replace("@", TOP + "/bin")
    r = run.sh("invoke_check", a + [plugin] + pargs, SHELLS[sh], SEND_NSCA_ARGS=ea, STUB_HOST="Mail.Example.ORG", STUB_SEND=str(status))
    p = run.records("plugin")
    if len(p) != 1:
        raise Bad("the plugin was called %d times" % len(p))
    if p[0][0] != pargs:
        raise Bad("the plugin was called with %s instead of %s" % (p[0][0], pargs))
    expect_sent(run, r, False, conf, extra, "%s\t%s\t0\tfine\n" % (host or "mail", svc or defsvc), status)


def plugin_calls(thorough):
    hosts = [None, "h", "My Host", "a\\tb", "*"]
    svcs = [None, "s", "My Service", "x\\c%d", "*"]
    plugins = [("check_disk", "DISK"), ("@/check_http", "HTTP"), ("plain", "PLAIN"), ("@/plain", "PLAIN")]
    pargs = [[], ["-w", "20%", "-c", "10%"], ["a b", ""], ["-H", "x", "-S", "-h"], ["*", "\\n", "$x"]]
    for c in itertools.product((0, 1), ARGS, CONF, hosts, svcs, plugins, pargs, (0, 2)):
        if thorough or (c[7] == 0 or c[6] == []) and (c[0] == 0 or c[6] == pargs[4]):
            yield c


def plugin_result(case, run):
    sh, text, state = case[:3]
    moan = case[3] if len(case) > 3 else ""
    r = run.sh("invoke_check", ["-H", "h", "-S", "s", "check_disk"], SHELLS[sh], STUB_PLUGIN_OUT=text, STUB_PLUGIN=str(state),
               STUB_PLUGIN_ERR=moan)
    if len(run.records("plugin")) != 1:
        raise Bad("the plugin was called %d times" % len(run.records("plugin")))
    if state > 3:
        expect_refused(run, r)
    else:
        expect_sent(run, r, False, None, [], "h\ts\t%d\t%s\n" % (state, text), 0, ("", moan))


def plugin_results(thorough):
    abc = "a\\nc0%s \n'\"$`*|"
    for sh in (0, 1):
        for w in words(abc, 3):
            if thorough or len(w) < 3 or sh == 0:
                yield sh, w, len(w) % 4
        for w in words(abc, 1):
            for st in (0, 1, 2, 3, 4, 5, 126, 127, 128, 137, 255):
                yield sh, w, st
        for w in ("", "fine", "two\nlines"): # what Nagios ignores
            for moan in ("x", "a warning\n", "h\ts\t0\tfake\n", "\n\n"):
                yield sh, w, 1, moan
        for w in ("%d%s%n", "C:\\temp\\new", "a" * 5000, "x\n" * 300, "-n", "-e x", "--", "\\0101", "\\x41", "-"):
            yield sh, w, 1


def plugin_wrong(case, run):
    r = run.sh("invoke_check", case[1], SHELLS[case[0]])
    if run.records("plugin"):
        raise Bad("the plugin was called")
    expect_refused(run, r)


def plugin_wrongs(thorough):
    for sh in (0, 1):
        for a in ([], ["-h"], ["-x"], ["-x", "check_disk"], ["-H"], ["-c"], ["-S"], ["-H", "x"], ["-H", "x", "-S", "y", "-c", "z"],
                  ["-h", "check_disk"], ["-H", "x", "-h", "check_disk"], ["no_such_plugin"], ["-S", "x", "/nonexistent/plugin"]):
            yield sh, a
        for o in unknown("cHhS"):
            yield sh, [o, "x", "check_disk"]
            yield sh, ["-H", "h", o, "check_disk"]


def unknown(known):
    """All options but the known ones."""
    for o in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0":
        if o not in known:
            yield "-" + o


def repeated(case, run):
    """The last one of several options of the same kind is in effect."""
    script, sh, o = case
    v = {"-c": ["f", "my f"], "-H": ["h", "my h"], "-S": ["s", "my s"], "-C": ["c", "my c"], "-s": ["now", "+3hours"], "-e": ["+9hours", "next friday"]}[o]
    a = [o, v[0], o, v[1]]
    conf, data = (v[1] if o == "-c" else None), None
    h, s, c = (v[1] if o == x else None for x in ("-H", "-S", "-C"))
    if script == "invoke_check":
        r = run.sh(script, a + ["check_disk"], SHELLS[sh])
        data = "%s\t%s\t0\tfine\n" % (h or "host", s or "DISK")
    else:
        r = run.sh(script, a, SHELLS[sh])
        if script.endswith("notifications"):
            data = script.split("_")[0].upper() + "_NOTIFICATIONS\n"
        else:
            kind = "SVC" if s else "HOST"
            e = [{"acknowledge": "ACKNOWLEDGE_%s_PROBLEM", "downtime": "SCHEDULE_%s_DOWNTIME"}[script] % kind, h or "host"] + ([s] if s else [])
            if script == "acknowledge":
                e += ["1", "0", "1"]
            else:
                e += [stamp(v[1] if o == "-s" else "now"), stamp(v[1] if o == "-e" else "+2 hours"), "1", "0", "0"]
            data = ";".join(e + ["Joe", c or "Submitted by send_nsca@host"]) + "\n"
    expect_sent(run, r, script != "invoke_check", conf, [], data, 0)


def repetitions(thorough):
    for script, os_ in (("invoke_check", "cHS"), ("acknowledge", "CcHS"), ("downtime", "CcHSse"), ("enable_notifications", "c"),
                        ("disable_notifications", "c")):
        for sh in (0, 1):
            for o in os_:
                yield script, sh, "-" + o


# ---------------------------------------- acknowledge, downtime, notifications

def opts(conf, host, svc, comment, more=()):
    a = []
    for o, v in (("-C", comment), ("-c", conf), ("-H", host), ("-S", svc)) + tuple(more):
        if v is not None:
            a += [o, v]
    return a


def stamp(s):
    h = 1000
    for b in s.encode():
        h = (h * 31 + b) % 1000000007
    return str(h)


def ack(case, run):
    sh, (ea, extra), conf, host, svc, comment, gecos, fqdn, status = case
    r = run.sh("acknowledge", opts(conf, host, svc, comment), SHELLS[sh], SEND_NSCA_ARGS=ea, STUB_HOST=fqdn, STUB_GECOS=gecos,
               STUB_SEND=str(status))
    short = fqdn.split(".")[0]
    e = ["ACKNOWLEDGE_SVC_PROBLEM" if svc else "ACKNOWLEDGE_HOST_PROBLEM", host or short] + ([svc] if svc else []) \
        + ["1", "0", "1", gecos, comment or "Submitted by send_nsca@" + short]
    expect_sent(run, r, True, conf, extra, ";".join(e) + "\n", status)


def acks(thorough):
    for c in itertools.product((0, 1), ARGS, CONF, (None, "h", "My Host", "a\\nb"), (None, "s", "My Svc", "a\\tb%s"),
                               (None, "c", "my comment", "a\\nb", "*"), ("Joe", "Joe Doe,,,", ""), ("host", "www.example.org"), (0, 1)):
        if thorough or (c[0] == 0 or c[5] == "a\\nb") and (c[6] == "Joe" or c[2] is None) and (c[7] == "host" or c[1][0] is None):
            yield c


def comment_text(case, run):
    script, sh, text = case
    r = run.sh(script, ["-H", "h", "-C", text], SHELLS[sh])
    if script == "acknowledge":
        e = "ACKNOWLEDGE_HOST_PROBLEM;h;1;0;1;Joe;" + (text or "Submitted by send_nsca@host")
    else:
        e = "SCHEDULE_HOST_DOWNTIME;h;%s;%s;1;0;0;Joe;" % (stamp("now"), stamp("+2 hours")) + (text or "Submitted by send_nsca@host")
    expect_sent(run, r, True, None, [], e + "\n", 0)


def comment_texts(thorough):
    for script in ("acknowledge", "downtime"):
        for sh in (0, 1):
            for w in words("a\\nc0%s ;'\"$`*-", 3 if thorough else 2):
                yield script, sh, w


def down(case, run):
    sh, (ea, extra), conf, host, svc, comment, start, end, status = case
    r = run.sh("downtime", opts(conf, host, svc, comment, (("-s", start), ("-e", end))), SHELLS[sh], SEND_NSCA_ARGS=ea, STUB_SEND=str(status))
    if start == "bad" or end == "bad":
        return expect_refused(run, r)
    s = [stamp(start or "now")]
    ends = [stamp(end)] if end else [stamp("+2 hours"), stamp("+2hours")]
    for i, x in enumerate(ends):
        e = ["SCHEDULE_SVC_DOWNTIME" if svc else "SCHEDULE_HOST_DOWNTIME", host or "host"] + ([svc] if svc else []) \
            + s + [x, "1", "0", "0", "Joe", comment or "Submitted by send_nsca@host"]
        try:
            return expect_sent(run, r, True, conf, extra, ";".join(e) + "\n", status)
        except Bad:
            if i == len(ends) - 1:
                raise


def downs(thorough):
    times = (None, "now", "+3hours", "2026-01-02 10:00", "next friday", "*", "bad")
    for c in itertools.product((0, 1), ARGS, CONF, (None, "My Host"), (None, "My Svc"), (None, "my\\ncomment"), times, times, (0, 3)):
        if thorough or (c[0] == 0 or c[6] == times[3]) and (c[2] is None or c[7] in (None, "now")) and (c[8] == 0 or c[6] is None):
            yield c


def switch(case, run):
    script, sh, (ea, extra), conf, status = case
    r = run.sh(script, opts(conf, None, None, None), SHELLS[sh], SEND_NSCA_ARGS=ea, STUB_SEND=str(status))
    expect_sent(run, r, True, conf, extra, "DISABLE_NOTIFICATIONS\n" if script[0] == "d" else "ENABLE_NOTIFICATIONS\n", status)


def switches(thorough):
    return itertools.product(("enable_notifications", "disable_notifications"), (0, 1), ARGS, CONF, (0, 1))


def misused(case, run):
    script, sh, a, env = case
    r = run.sh(script, a, SHELLS[sh], **env)
    expect_refused(run, r)


def misuses(thorough):
    for script in ("acknowledge", "downtime", "enable_notifications", "disable_notifications"):
        for sh in (0, 1):
            for a in (["-h"], ["-x"], ["-c"], ["stray"], ["-c", "f", "stray"], ["-c", "f", "-h"], ["--", "stray"]):
                yield script, sh, a, {}
    for script, known in (("acknowledge", "CcHhS"), ("downtime", "CceHhSs"), ("enable_notifications", "ch"), ("disable_notifications", "ch")):
        for sh in (0, 1):
            for o in unknown(known):
                yield script, sh, [o], {}
    for script in ("acknowledge", "downtime"):
        for sh in (0, 1):
            for a in (["-C"], ["-H"], ["-S"], ["-H", "h", "s"], ["-H", "h", "-S", "s", "-C", "c", "x"]):
                yield script, sh, a, {}
            yield script, sh, [], {"STUB_HOST": "!"}
    for sh in (0, 1):
        for a in ([], ["-H", "h"], ["-s", "now"]):
            yield "downtime", sh, a, {"STUB_DATE": "other"}
        for a in (["-s"], ["-e"], ["-s", "bad"], ["-e", "bad"]):
            yield "downtime", sh, a, {}


# ----------------------------------------------------------- debug_server

def debug(case, run):
    sh, how, style, server, port, ident, pw, oserver, oport, status = case
    f = os.path.join(run.d, "my config")
    lines = ["# a comment", ""]
    eq = (" = ", "=", "\t=  ")[style]
    quote = '"%s"' if style != 1 else "%s"
    for n, v in (("server", server), ("port", port), ("identity", ident), ("password", pw)):
        if v is not None:
            lines.append(n + eq + (quote % v if n != "port" or style == 2 else v) + ("", " # why", "")[style])
    with open(f, "w") as h:
        h.write("\n".join(lines) + "\n")
    a = (["-c", f] if how == 0 else ["-c", f + ".missing"])
    if oserver:
        a += ["-H", oserver]
    if oport:
        a += ["-p", oport]
    rc, out, err = run.sh("debug_server", a, SHELLS[sh], STUB_OPENSSL=str(status))
    o = run.records("openssl")
    if len(o) != 1:
        raise Bad("s_client was called %d times (%s)" % (len(o), err.strip()))
    x = o[0][0]

    def val(n):
        return x[x.index(n) + 1] if n in x and x.index(n) + 1 < len(x) else None
    if how == 1:
        server = port = ident = pw = None
        if not err.strip():
            raise Bad("the missing file wasn't reported")
    want = {"-connect": "%s:%s" % (oserver or server or "localhost", oport or port or "5668"), "-psk_identity": ident or "host",
            "-psk": (pw or "change-me").encode().hex()}
    for n, v in want.items():
        if val(n) != v:
            raise Bad("s_client was called with %s %s instead of %s" % (n, val(n), v))
    if x[0] != "s_client" or "-crlf" not in x:
        raise Bad("s_client wasn't called as it should: %s" % x)
    if rc != status:
        raise Bad("exit status %d instead of %d" % (rc, status))


def debugs(thorough):
    for c in itertools.product((0, 1), (0, 1), (0, 1, 2), (None, "srv.example.org"), (None, "1234"), (None, "me", "my id"),
                               (None, "secret", "a=b c", "x" * 90), (None, "other"), (None, "99"), (0, 1)):
        if c[2] == 1 and (c[5] == "my id" or c[6] == "a=b c"):
            continue # need quotation marks
        if thorough or (c[0] == 0 or c[8] is None) and (c[9] == 0 or c[3] is None):
            yield c


def debug_wrong(case, run):
    sh, a, env = case
    rc, out, err = run.sh("debug_server", a, SHELLS[sh], **env)
    if run.records("openssl"):
        raise Bad("s_client was called")
    if rc == 0 or not err.strip():
        raise Bad("exit status %d, message %s" % (rc, q(err)))


def debug_wrongs(thorough):
    for sh in (0, 1):
        for a in (["-h"], ["-x"], ["stray"], ["-c"], ["-H"], ["-p"], ["-H", "x", "y"]):
            yield sh, a, {}
        for o in unknown("cHhp"):
            yield sh, [o], {}
        yield sh, [], {"STUB_XXD": "none"}


# ------------------------------------------------------------ nsca-ng.init

FILES = ["absent", "running", "stale", "empty", "text", "other", "zero", "negative", "two"]
ACTIONS = ["start", "stop", "restart", "try-restart", "reload", "force-reload", "status", "bogus", None]


def alive(pid):
    try:
        os.kill(pid, 0)
        return open("/proc/%d/stat" % pid).read().split(") ")[1][0] != "Z"
    except (OSError, IOError):
        return False


def wait(what, f):
    for _ in range(4000):
        v = f()
        if v:
            return v
        time.sleep(0.005)
    raise Bad(what)


def init(case, run):
    sh, state, how, acts = case
    pf = os.path.join(run.d, ".nsca-ng.pid")
    env = {"STUB_PIDFILE": pf, "STUB_EOL": "\n" if how == "newline" else ""}
    bystander = subprocess.Popen(["sleep", "60"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    server = None
    fds = []
    try:
        def start_stub():
            r = subprocess.run([os.path.join(TOP, "bin", "nsca-ng"), "-P", pf], env=dict(run.env, **env), stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if r.returncode:
                raise RuntimeError("the stand-in doesn't start")
            return int(open(pf).read())
        if state == "running":
            server = start_stub()
        elif state != "absent":
            dead = subprocess.Popen(["true"])
            dead.wait()
            with open(pf, "w") as f:
                f.write({"stale": "%d\n" % dead.pid, "empty": "", "text": "what %d\n" % bystander.pid, "other": "x%dy" % bystander.pid,
                         "zero": "0\n", "negative": "-%d\n" % bystander.pid,
                         "two": "%d %d\n" % (bystander.pid, bystander.pid)}[state])
        for f in os.listdir(run.out):
            os.unlink(os.path.join(run.out, f))
        for act in acts:
            before = len(run.records("server"))
            rel = len([f for f in os.listdir(run.out) if f.startswith("reloaded")])
            fail = how == "fail"
            rc, out, err = run.sh("nsca-ng.init", [act] if act else [], SHELLS[sh], STUB_SERVER="fail" if fail else "ok", **env)
            started = run.records("server")[before:]
            what = "`%s' (%s)" % (act, "running" if server else "not running")
            if act in ("bogus", None):
                if rc == 0 or not err.strip():
                    raise Bad("%s: exit status %d without usage message" % (what, rc))
                want_start, want_stop, want_hup = 0, False, False
            else:
                want_start = act == "restart" or act == "start" and not server or act == "try-restart" and server is not None
                want_stop = server is not None and act in ("stop", "restart", "try-restart")
                want_hup = server is not None and act in ("reload", "force-reload")
                if rc != (3 if act == "status" and not server else 0):
                    raise Bad("%s: exit status %d" % (what, rc))
                if act == "status" and ("NOT" in out) == (server is not None):
                    raise Bad("%s: reports %s" % (what, q(out)))
            if len(started) != (1 if want_start else 0):
                raise Bad("%s: the server was started %d times" % (what, len(started)))
            for a, _ in started:
                if a != ["-P", pf]:
                    raise Bad("%s: the server was started with %s" % (what, a))
            if want_start and ("failed" in out) != fail:
                raise Bad("%s: reports %s" % (what, q(out)))
            if want_stop:
                old = server
                wait("%s: the server wasn't stopped" % what, lambda: not alive(old))
                server = None
            elif server is not None and not alive(server):
                raise Bad("%s: the server was ended" % what)
            if want_hup:
                wait("%s: the server wasn't told to reload" % what,
                     lambda: len([f for f in os.listdir(run.out) if f.startswith("reloaded")]) > rel)
            elif len([f for f in os.listdir(run.out) if f.startswith("reloaded")]) > rel:
                raise Bad("%s: the server was told to reload" % what)
            if want_start and not fail:
                server = int(open(pf).read())
                fds.append(server)
            if bystander.poll() is not None:
                raise Bad("%s: another process was ended" % what)
            if server is not None and not os.path.exists(pf):
                raise Bad("%s: the PID file of a running server was removed" % what)
    finally:
        bystander.kill()
        bystander.wait()
        for p in fds + ([server] if server else []):
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass


def inits(thorough):
    for n in (1, 2, 3) if thorough else (1, 2):
        for acts in itertools.product(ACTIONS, repeat=n):
            if n > 1 and None in acts or n > 2 and "bogus" in acts:
                continue
            for sh in (0, 1):
                for state in FILES:
                    for how in ("ok", "fail", "newline"):
                        if n > 1 and state not in ("absent", "running", "stale") and not thorough:
                            continue
                        if n > 1 and (sh == 1 or how == "newline") and not thorough:
                            continue
                        yield sh, state, how, acts


SCENARIOS = [
    ("invoke", plugin_calls, plugin_call), ("invoke-output", plugin_results, plugin_result), ("invoke-wrong", plugin_wrongs, plugin_wrong),
    ("acknowledge", acks, ack), ("comments", comment_texts, comment_text), ("downtime", downs, down),
    ("notifications", switches, switch), ("misuse", misuses, misused), ("debug", debugs, debug), ("debug-wrong", debug_wrongs, debug_wrong),
    ("repeated", repetitions, repeated), ("init", inits, init),
]


def one(job):
    name, idx, case = job
    global entered
    if not globals().get("entered"):
        enter()
        entered = True
    fn = [s[2] for s in SCENARIOS if s[0] == name][0]
    run = Run()
    try:
        try:
            fn(case, run)
            msg = None
        except Bad as e:
            msg = str(e).replace(run.d, "@").replace(TOP, "@")
        h = hashlib.sha1()
        for f in sorted(os.listdir(run.out)):
            h.update(f.encode() + open(os.path.join(run.out, f), "rb").read().replace(run.d.encode(), b"@"))
        return idx, msg, run.steps, h.hexdigest()[:16]
    finally:
        run.done()


def main():
    a = sys.argv[1:]

    def opt(n, d=None):
        return a[a.index(n) + 1] if n in a else d
    global TOP
    thorough = "--thorough" in a
    if "--list" in a:
        for s in SCENARIOS:
            print("%-40s C32 cases=%d" % (s[0], sum(1 for _ in s[1](thorough))))
        return 0
    stub = os.path.join(HERE, "stub") if os.path.exists(os.path.join(HERE, "stub")) else os.environ["CONTRIB_STUB"]
    TOP = setup(stub)
    rc, per = 0, []
    end = time.time() + float(opt("--limit", "1e9"))
    try:
        todo = [s for s in SCENARIOS if opt("--scenario", s[0]) == s[0]]
        for name, gen, fn in todo:
            t0 = time.time()
            cases = list(gen(thorough))
            if "--replay" in a:
                i = [int(x) for x in opt("--replay").split(",")]
                cases = [cases[i[0] * 256 + i[1]]] if len(i) > 1 else [cases[i[0]]]
                print("case: %r" % (cases[0],))
            r = {"name": name, "dev": 0, "executions": 0, "states": 0, "transitions": 0, "choices": 0, "nontrivial": 0, "maxdepth": len(cases[0]),
                 "complete": True, "diverged": 0, "failed": False, "message": "", "choices_seq": "", "samples": []}
            seen, bad = set(), None
            with ProcessPoolExecutor(8, mp_context=mp.get_context("fork")) as ex:
                it = iter(enumerate(cases))
                pend = set()
                while True:
                    for i, c in itertools.islice(it, max(0, 400 - len(pend))):
                        pend.add(ex.submit(one, (name, i, c)))
                    if not pend:
                        break
                    done = [f for f in pend if f.done()]
                    if not done:
                        time.sleep(0.001)
                    for f in done:
                        pend.discard(f)
                        i, msg, steps, h = f.result()
                        r["executions"] += 1
                        r["transitions"] += steps
                        r["choices"] += len(cases[i])
                        seen.add(h)
                        if len(r["samples"]) < 2:
                            r["samples"].append("%r" % (cases[i],))
                        if msg is not None and (bad is None or i < bad[0]):
                            bad = (i, msg)
                    if bad or time.time() > end:
                        for f in pend:
                            f.cancel()
                        pend = set()
                        if not bad:
                            r["complete"] = False
                        break
            if bad: # again, alone
                with ProcessPoolExecutor(1, mp_context=mp.get_context("fork")) as ex:
                    m = [ex.submit(one, (name, bad[0], cases[bad[0]])).result()[1] for _ in (0, 1)]
                if None in m:
                    print("NOTE: scenario %s: failure not reproducible, not reported: %s" % (name, bad[1]))
                    r["complete"] = False
                else:
                    r["failed"], r["complete"] = True, False
                    r["message"] = "%r: %s" % (cases[bad[0]], m[0])
                    r["choices_seq"] = "%d,%d" % (bad[0] // 256, bad[0] % 256)
                    rc = 1
            r["states"] = r["nontrivial"] = len(seen)
            r["wall"] = time.time() - t0
            per.append(r)
            print("scenario %s: executions=%d states=%d transitions=%d %s %.1fs" % (
                name, r["executions"], r["states"], r["transitions"],
                "FAILED" if r["failed"] else "complete" if r["complete"] else "TIME LIMIT", r["wall"]))
            if r["failed"]:
                print("FAIL scenario=%s choices=%s\n%s" % (name, r["choices_seq"], r["message"]))
                if "--first" in a:
                    break
        if opt("--out"):
            with open(opt("--out"), "w") as f:
                json.dump({"scenarios": per}, f)
        return rc
    finally:
        shutil.rmtree(TOP, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
