id = "c14-unlock-first"
prop = "C14"
edits = [("lib/pidfile/pidfile.c", '''	if (unlink(pfh->pf_path) == -1)
		error = errno;
	if (close(pfh->pf_fd) == -1) {
		if (error == 0)
			error = errno;
	}
''', '''	if (close(pfh->pf_fd) == -1)
		error = errno;
	if (unlink(pfh->pf_path) == -1) {
		if (error == 0)
			error = errno;
	}
''')]
needs = "a second server that starts between the first one's release of the lock and its removal of the file, and then a third one"
what = "the stopping server removes the PID file of its successor, so that a further server can be started beside it"
extra = {"shim.c": r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
int unlink(const char *p)
{
	int (*f)(const char *) = dlsym(RTLD_NEXT, "unlink");
	const char *go = getenv("SHIM_GO"), *at = getenv("SHIM_AT");
	size_t n = strlen(p);
	if (go != NULL && n > 4 && strcmp(p + n - 4, ".pid") == 0) {
		int i, fd;
		extern int creat(const char *, unsigned);
		if ((fd = creat(at, 0600)) != -1)
			close(fd);
		for (i = 0; i < 2000 && access(go, F_OK) == -1; i++)
			usleep(10000);
	}
	return f(p);
}
'''}
demo = r'''
import nsca
d = scratch()
shim = os.path.join(d, "shim.so")
subprocess.check_call(["gcc", "-shared", "-fPIC", "-o", shim, os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim.c"), "-ldl"])
pid = os.path.join(d, "nsca.pid")
go, at = os.path.join(d, "go"), os.path.join(d, "at")
def wait(cond, what, n=100):
    for _ in range(n):
        if cond():
            return
        time.sleep(0.1)
    fail(what)
a = Server(args=["-P", pid], wrap=["env", "LD_PRELOAD=" + shim, "SHIM_GO=" + go, "SHIM_AT=" + at])
a.p.send_signal(signal.SIGTERM)
wait(lambda: os.path.exists(at), "A doesn't remove its file")
b = Server(args=["-P", pid], wait=False)
try:
    b.p.wait(3)
except subprocess.TimeoutExpired:
    pass
open(go, "w").close()
a.p.wait(10)
c = Server(args=["-P", pid], wait=False)
try:
    c.p.wait(3)
except subprocess.TimeoutExpired:
    pass
n = [s.alive() for s in (a, b, c)].count(True)
check(n <= 1, "%d servers run with the same PID file" % n)
check(n == 1, "no server could be started: " + b.log() + c.log())
live = b if b.alive() else c
check(open(pid).read() == str(live.p.pid), "wrong PID in the file: " + open(pid).read())
live.stop()
check(not os.path.exists(pid), "the file remains")
'''
