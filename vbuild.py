"""Builds the model-checking harnesses from /repo's current working tree."""
import concurrent.futures as cf
import glob, hashlib, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MC = os.path.join(VERIF, "mc")

SIM = """access aio_cancel aio_error aio_init aio_return aio_suspend aio_write
abort atexit chdir chmod chroot clock_gettime close closefrom closelog creat daemon dprintf
epoll_create epoll_create1 epoll_ctl epoll_pwait epoll_wait eventfd execvp exit _exit
fchmod fcntl fdatasync flock fork fstat fsync ftruncate gethostname getpid gettimeofday
initgroups inotify_init inotify_init1 kill lseek lstat mkostemp mkstemp nanosleep open
openlog perror pipe pipe2 poll printf puts putchar pwrite read rename sd_listen_fds sd_notify
select setgid setuid sigaction signal signalfd sigprocmask pthread_sigmask sleep stat stderr stdout
syscall syslog time timerfd_create timerfd_settime unlink usleep vsyslog waitpid write
writev __assert_fail raise recv send getpwnam setgroups getuid geteuid getgid getegid
setresuid setresgid seteuid setegid setreuid setregid getppid setsid umask vdprintf""".split()
ALIAS = {"open64": "sim_open", "fstat64": "sim_fstat", "stat64": "sim_stat",
         "lstat64": "sim_lstat", "lseek64": "sim_lseek", "ftruncate64": "sim_ftruncate",
         "mkstemp64": "sim_mkstemp", "mkostemp64": "sim_mkostemp", "creat64": "sim_creat",
         "fcntl64": "sim_fcntl", "pwrite64": "sim_pwrite", "aio_write64": "sim_aio_write",
         "aio_error64": "sim_aio_error", "aio_return64": "sim_aio_return",
         "aio_cancel64": "sim_aio_cancel", "aio_suspend64": "sim_aio_suspend",
         "raise": "sim_raise_", "__time": "sim_time"}
ALIAS.update({n: "sim_" + n for n in SIM if n not in ("raise",)})

ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer", "-fno-pie"]
CF = ["-g", "-O1", "-std=gnu99", "-w", "-U_FORTIFY_SOURCE", "-fno-builtin-printf",
      "-fno-builtin-fprintf", "-fno-builtin-puts", "-DHAVE_CONFIG_H=1", '-DSYSCONFDIR="/etc"', '-DLOCALSTATEDIR="/var"',
      '-DNSCA_VERSION="1.6"', '-DEV_MULTIPLICITY=0'][:-1]


class BuildError(Exception):
    pass


class Unmodelled(BuildError):
    """The code uses a libssl function which the model doesn't have."""


FALLBACK = {"server-aio": "server-ssl", "server-noaio": "server-ssl", "server-start": "server-start-ssl", "client": "client-ssl"}


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def cc(src, obj, flags):
    run(["gcc", "-c", *flags, src, "-o", obj])
    return obj


def par(jobs):
    with cf.ThreadPoolExecutor(8) as ex:
        return [f.result() for f in [ex.submit(cc, *j) for j in jobs]]


def sources(kind):
    def g(d):
        return sorted(glob.glob(os.path.join(REPO, d, "*.c")))
    base = g("src/common") + [os.path.join(REPO, "lib", n) for n in ("wrappers.c", "progname.c")] \
        + [os.path.join(REPO, "lib/ev/ev.c")]
    if kind == "server":
        return g("src/server") + base + [os.path.join(REPO, "lib/pidfile", n)
                                         for n in ("pidfile.c", "flopen.c")]
    if kind == "client":
        return g("src/client") + base
    if kind == "common":
        return base
    raise ValueError(kind)


def undefined(obj):
    return [l.split()[-1] for l in run(["nm", "-u", obj]).splitlines()]


def link_repo(kind, variant, out, fake_ssl=True, config="aio", sanitize=True, redefine=None,
              srcs=None, extra_flags=(), skip=()):
    """Compiles the code under test into one relocatable object with its
    environment redirected to the simulated one."""
    d = os.path.join(out, "%s-%s" % (kind, variant))
    os.makedirs(d, exist_ok=True)
    inc = ["-I", os.path.join(VERIF, "config", config)]
    for p in ("src/common", "lib", "lib/ev", "lib/pidfile", "src/" + kind):
        inc += ["-I", os.path.join(REPO, p)]
    flags = CF + (ASAN if sanitize else []) + list(extra_flags) + inc
    jobs = []
    for i, s in enumerate(srcs or sources(kind)):
        if os.path.relpath(s, REPO) in skip:
            continue
        jobs.append((s, os.path.join(d, "%02d_%s.o" % (i, os.path.basename(s)[:-2])), flags))
    objs = par(jobs)
    comb = os.path.join(d, "combined.o")
    run(["ld", "-r", "-o", comb] + objs)
    und = undefined(comb)
    m = {}
    if fake_ssl:
        have = set(re.findall(r"\bfssl_((?:SSL|TLS)_\w+)\s*\(", open(os.path.join(MC, "fssl.c")).read()))
        lack = [u for u in und if u not in have and (u.startswith(("SSL_", "TLS_", "DTLS_")) or u == "OPENSSL_init_ssl")]
        if lack:
            raise Unmodelled(" ".join(lack))
    for u in und:
        if fake_ssl and (u.startswith("SSL_") or u.startswith("TLS_")):
            m[u] = "fssl_" + u
        elif u in ALIAS:
            m[u] = ALIAS[u]
    for n in "malloc calloc realloc free strdup strndup vasprintf asprintf".split():
        m[n] = "trk_" + n
    m.update(redefine or {})
    m.setdefault("main", "repo_main")
    mapf = os.path.join(d, "map")
    with open(mapf, "w") as f:
        for k, v in m.items():
            f.write("%s %s\n" % (k, v))
    final = os.path.join(d, "repo.o")
    run(["objcopy", "--redefine-syms", mapf,
         "--rename-section", ".data=repodata",
         "--rename-section", ".bss=repobss,alloc,load,data,contents",
         comb, final])
    return final


def link_exe(name, out, repo_obj, harness, fake_ssl=True, libs=(), extra_flags=(), sanitize=True, sim_confuse=False):
    hd = os.path.join(out, "h-" + name)
    os.makedirs(hd, exist_ok=True)
    flags = ["-g", "-O1", "-w", "-std=gnu11", "-I", MC] + (ASAN if sanitize else []) + list(extra_flags)
    jobs = [(os.path.join(MC, h), os.path.join(hd, h[:-2].replace("/", "_") + ".o"), flags) for h in harness]
    objs = par(jobs)
    exe = os.path.join(out, name)
    confuse = "-lconfuse"
    if sim_confuse: # its messages go to the simulated standard error; its state is reset
        lib = run(["gcc", "-print-file-name=libconfuse.a"]).strip()
        confuse = os.path.join(hd, "libconfuse-sim.a")
        run(["objcopy", "--redefine-sym", "stderr=sim_stderr"]
            + [a for n in "malloc calloc realloc free strdup strndup".split() for a in ("--redefine-sym", "%s=trk_%s" % (n, n))]
            + [a for n in (".data", ".data.rel", ".data.rel.local") for a in ("--rename-section", n + "=repodata")]
            + ["--rename-section", ".bss=repobss,alloc,load,data,contents", lib, confuse])
    run(["gcc", "-rdynamic", "-no-pie"] + (ASAN if sanitize else []) + ["-o", exe] + objs + ([repo_obj] if repo_obj else [])
        + (["-lssl"] if not fake_ssl else []) + ["-lcrypto", confuse, "-lm", "-lpthread"] + list(libs))
    return exe


def glue(src, obj, flags):
    """Compiles the part of a language binding which talks to the interpreter."""
    cc(src, obj, flags)
    m = {u: ALIAS[u] for u in undefined(obj) if u in ALIAS}
    for n in "malloc calloc realloc free strdup strndup vasprintf asprintf".split():
        m[n] = "trk_" + n
    with open(obj + ".map", "w") as f:
        for k, v in m.items():
            f.write("%s %s\n" % (k, v))
    run(["objcopy", "--redefine-syms", obj + ".map", obj])
    return obj


def build_perl(name, out):
    d = os.path.join(out, "glue-" + name)
    os.makedirs(d, exist_ok=True)
    pd = os.path.join(REPO, "perl")
    core, lib, libperl = run(["perl", "-MConfig", "-e", 'print "$Config{archlibexp}/CORE\n$Config{libpth}\n$Config{libperl}\n"']).split("\n")[:3]
    ccopts = run(["perl", "-MExtUtils::Embed", "-e", "ccopts"]).split()
    version = re.search(r"qv\('([^']*)'\)", open(os.path.join(pd, "lib/Net/NSCAng/Client.pm")).read()).group(1)
    tm = os.path.join(run(["perl", "-MConfig", "-e", 'print $Config{privlibexp}']).strip(), "ExtUtils", "typemap")
    csrc = os.path.join(d, "Client.c")
    text = run(["xsubpp", "-noprototypes", "-typemap", tm, "-typemap", os.path.join(pd, "typemap"), "-output", csrc, os.path.join(pd, "Client.xs")])
    inc = ["-I", pd, "-I", os.path.join(VERIF, "config", "aio")]
    g = glue(csrc, os.path.join(d, "xs.o"), ["-g", "-O1", "-w", "-U_FORTIFY_SOURCE"] + ASAN + ccopts + inc +
             ['-DVERSION="%s"' % version, '-DXS_VERSION="%s"' % version])
    obj = link_repo("perl", name, out, fake_ssl=False, srcs=sorted(x for x in glob.glob(os.path.join(pd, "*.c")) if os.path.basename(x) != "Client.c"),
                    extra_flags=["-I", pd], redefine={"main": "main"})
    h = cc(os.path.join(MC, "glue_perl.c"), os.path.join(d, "glue_perl.o"), ["-g", "-O1", "-w", "-I", MC] + ASAN + ccopts
           + ['-DREPO_PERL="%s"' % os.path.join(pd, "lib")])
    return link_exe(name, out, obj, BASE + ["rssl.c", "peer.c", "lib.c", "h_lib.c"], fake_ssl=False,
                    extra_flags=["-DREALSSL", "-DPERL"], libs=[g, h] + ["-L" + p for p in lib.split()] + ["-l:" + libperl, "-lcrypt"])


def build_python(name, out):
    import sysconfig
    d = os.path.join(out, "glue-" + name)
    os.makedirs(d, exist_ok=True)
    pd = os.path.join(REPO, "python")
    pinc, plib, pver = run(["/usr/bin/python3", "-c", "import sysconfig as s; print(s.get_path('include')); "
                           "print(s.get_config_var('LIBDIR')); print(s.get_config_var('LDVERSION'))"]).split("\n")[:3]
    inc = ["-I", pd, "-I", pinc, "-I", os.path.join(VERIF, "config", "aio")]
    fl = ["-g", "-O1", "-w", "-U_FORTIFY_SOURCE"] + ASAN + inc
    g = glue(os.path.join(pd, "nscang.c"), os.path.join(d, "nscang.o"), fl)
    obj = link_repo("python", name, out, fake_ssl=False, extra_flags=["-I", pd], redefine={"main": "main"},
                    srcs=sorted(x for x in glob.glob(os.path.join(pd, "*.c")) if os.path.basename(x) != "nscang.c"))
    h = cc(os.path.join(MC, "glue_python.c"), os.path.join(d, "glue_python.o"), fl + ["-I", MC])
    return link_exe(name, out, obj, BASE + ["rssl.c", "peer.c", "lib.c", "h_lib.c"], fake_ssl=False,
                    extra_flags=["-DREALSSL", "-DPYTHON"], libs=[g, h, "-L" + plib, "-lpython" + pver])


def build_contrib(name, out):
    """The explorer of the shell scripts is a script itself."""
    import shutil
    run(["gcc", "-O1", "-w", "-o", os.path.join(out, "stub"), os.path.join(MC, "stub.c")])
    exe = os.path.join(out, name)
    shutil.copy(os.path.join(MC, "h_contrib.py"), exe)
    os.chmod(exe, 0o755)
    return exe


def build_compat(name, out):
    """The replacement functions, compiled as on a system which lacks them."""
    d = os.path.join(out, "rpl-" + name)
    os.makedirs(d, exist_ok=True)
    has = ["-DHAVE_%s=1" % n for n in "STDARG_H STDLIB_H STDBOOL_H INTTYPES_H LOCALE_H STDDEF_H STDINT_H PATHS_H FCNTL_H UNSIGNED_LONG_LONG_INT UINTMAX_T "
           "LONG_DOUBLE LONG_LONG_INT INTMAX_T UINTPTR_T PTRDIFF_T VA_COPY LOCALECONV LCONV_DECIMAL_POINT LCONV_THOUSANDS_SEP".split()]
    printf = "SNPRINTF VSNPRINTF ASPRINTF VASPRINTF".split()
    other = "DAEMON GETPROGNAME SETPROGNAME STRDUP STRCASECMP STRNCASECMP FLOCK".split()
    units = {"lib/xprintf.c": printf, "lib/strcasecmp.c": ["STRCASECMP"], "lib/strncasecmp.c": ["STRNCASECMP"], "lib/strdup.c": ["STRDUP"],
             "lib/progname.c": ["GETPROGNAME", "SETPROGNAME"], "lib/daemon.c": ["DAEMON"], "lib/pidfile/flock.c": ["FLOCK"]}
    ren = {}
    objs = []
    for src, lacks in units.items():
        o = os.path.join(d, os.path.basename(src)[:-2] + ".o")
        fl = ["-g", "-O1", "-std=gnu99", "-w", "-U_FORTIFY_SOURCE", "-fno-builtin", "-I", os.path.join(REPO, "lib"), "-I", os.path.join(REPO, "lib/pidfile")] + ASAN + has
        fl += ["-DHAVE_%s=1" % n for n in printf + other if n not in lacks]
        fl += ["-D%s=%s%s" % (n.lower(), "rpl_" if n in printf else "x_", n.lower()) for n in lacks]
        cc(os.path.join(REPO, src), o, fl)
        sysc = {n: "cm_" + n for n in "fork vfork setsid chdir open open64 dup2 dup3 close fcntl fcntl64 _exit exit".split()}
        if src in ("lib/daemon.c", "lib/pidfile/flock.c"):
            for u in undefined(o):
                if u in sysc:
                    run(["objcopy", "--redefine-sym", "%s=%s" % (u, sysc[u]), o])
        objs.append(o)
    comb = os.path.join(d, "compat.o")
    run(["ld", "-r", "-o", comb] + objs)
    return link_exe(name, out, comb, ["mc.c", "h_compat.c"])


BASE = ["mc.c", "sim.c"]
VARIANTS = {
    "server-aio": dict(kind="server", config="aio", fake=True, h=BASE + ["fssl.c", "srv.c", "h_server.c"]),
    "server-noaio": dict(kind="server", config="noaio", fake=True, h=BASE + ["fssl.c", "srv.c", "h_server.c"], hf=["-DNOAIO"]),
    "server-ssl": dict(kind="server", config="aio", fake=False, h=BASE + ["rssl.c", "srv.c", "h_server.c"], hf=["-DREALSSL"],
                       redefine={"SSL_CTX_new": "rssl_SSL_CTX_new"}),
    "client-ssl": dict(kind="client", config="aio", fake=False, h=BASE + ["rssl.c", "peer.c", "cli.c", "h_client.c"], hf=["-DREALSSL"],
                       redefine={"SSL_CTX_new": "rssl_SSL_CTX_new"}),
    "pidfile": dict(kind="server", config="aio", fake=True, srcs=["lib/pidfile/pidfile.c", "lib/pidfile/flopen.c"], h=BASE + ["fssl.c", "h_pid.c"],
                    redefine={n: "pm_" + n for n in "open close flock stat lstat fstat ftruncate read pread pwrite write dprintf vdprintf lseek fcntl fsync fdatasync unlink nanosleep usleep getpid".split()}, sanitize=False),
    "perl": dict(custom=build_perl),
    "python": dict(custom=build_python),
    "contrib": dict(custom=build_contrib),
    "compat": dict(custom=build_compat),
    "server-start": dict(kind="server", config="aio", fake=True, h=BASE + ["fssl.c", "srv.c", "h_start.c"], confuse=True),
    "server-start-ssl": dict(kind="server", config="aio", fake=False, h=BASE + ["rssl.c", "srv.c", "h_start.c"], hf=["-DREALSSL"],
                             redefine={"SSL_CTX_new": "rssl_SSL_CTX_new"}, confuse=True),
    "client": dict(kind="client", config="aio", fake=True, h=BASE + ["fssl.c", "peer.c", "cli.c", "h_client.c"]),
}


def build(name, out):
    v = VARIANTS[name]
    os.makedirs(out, exist_ok=True)
    if "custom" in v:
        return v["custom"](name, out)
    obj = link_repo(v["kind"], name, out, fake_ssl=v["fake"], config=v.get("config", "aio"),
                    srcs=[os.path.join(REPO, s) for s in v["srcs"]] if "srcs" in v else None,
                    redefine=v.get("redefine"), skip=v.get("skip", ()), extra_flags=v.get("rf", ()), sanitize=v.get("sanitize", True))
    return link_exe(name, out, obj, v["h"], fake_ssl=v["fake"], libs=v.get("libs", ()), sim_confuse=v.get("confuse", False), sanitize=v.get("sanitize", True),
                    extra_flags=v.get("hf", ()))


def fingerprint(name):
    h = hashlib.sha256(name.encode())
    files = []
    for top in (os.path.join(REPO, "src"), os.path.join(REPO, "lib"), os.path.join(REPO, "perl"),
                os.path.join(REPO, "python"), MC, os.path.join(VERIF, "config")):
        for d, _, fs in os.walk(top):
            files += [os.path.join(d, f) for f in fs if f.endswith((".c", ".h", ".xs", ".pm", ".py")) or f == "typemap"]
    files.append(os.path.abspath(__file__))
    for f in sorted(files):
        h.update(f.encode() + b"\0" + open(f, "rb").read())
    return h.hexdigest()


def build_cached(name, out):
    """A build is reused only if every source file is unchanged."""
    stamp, exe = os.path.join(out, name + ".stamp"), os.path.join(out, name)
    fp = fingerprint(name)
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == fp:
        return exe
    if os.path.exists(stamp):
        os.unlink(stamp)
    exe = build(name, out)
    with open(stamp, "w") as f:
        f.write(fp)
    return exe


if __name__ == "__main__":
    for n in sys.argv[1:]:
        print(build(n, os.path.join(VERIF, "build")))
