"""Which harnesses decide which property (scenarios are tagged in the harness)."""
SRV = ["server-aio", "server-noaio"]
SIMULATED = ("libc's descriptor, time, file and AIO calls and libssl are replaced by an exact simulation "
             "(mc/sim.c, mc/fssl.c)")
REALSSL = ("the *-ssl harnesses run the real OpenSSL library on simulated sockets (mc/rssl.c), also to validate "
           "the libssl model used by the other harnesses")
PROPS = {}
for p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13".split():
    PROPS[p] = dict(harness=SRV, assumptions=[SIMULATED])
for p in "C01 C06 C07 C08 C09 C10 C11".split():
    PROPS[p] = dict(harness=SRV + ["server-ssl"], assumptions=[SIMULATED, REALSSL])
for p in "C20 C22".split():
    PROPS[p] = dict(harness=["client", "client-ssl"], assumptions=[SIMULATED, REALSSL])
for p in "C21 C23 C24".split():
    PROPS[p] = dict(harness=["client"], assumptions=[SIMULATED])
for p in "C14 C15 C16 C17 C18".split():
    PROPS[p] = dict(harness=["server-start", "server-start-ssl"], assumptions=[SIMULATED, REALSSL])
PROPS["C14"]["harness"] = ["pidfile"] + PROPS["C14"]["harness"]
PROPS["C14"]["assumptions"] = PROPS["C14"]["assumptions"] + ["the pidfile library's system calls act atomically on a local file system; users don't touch the PID file"]
LIBS = ("the real OpenSSL library and the real interpreter run on simulated sockets, clocks and signals (mc/rssl.c, mc/sim.c)")
PROPS["C30"] = dict(harness=["perl"], assumptions=[LIBS])
PROPS["C31"] = dict(harness=["python"], assumptions=[LIBS])
PROPS["C32"] = dict(harness=["contrib"], assumptions=["the programs called by the scripts are replaced by stand-ins (mc/stub.c) which record their arguments and input"])
PROPS["C33"] = dict(harness=["compat"], assumptions=["the system calls of daemon() and flock() are replaced by an exact simulation; the rest is compared with glibc's functions, and with references in the harness"])
