id = "c14-stale-inode"
prop = "C14"
edits = [("lib/pidfile/flopen.c", '''		if (stat(path, &sb) == -1) {
			/* disappeared from under our feet */
			(void)close(fd);
			continue;
		}
''', '''		if (stat(path, &sb) == -1) {
			/* disappeared from under our feet */
			if (link_missing(fd))
				return (fd);
			(void)close(fd);
			continue;
		}
'''), ("lib/pidfile/flopen.c", '''int
flopen(const char *path, int flags, ...)
{
''', '''/* The file was removed meanwhile, but we've locked it successfully. */
static int
link_missing(int fd)
{
	struct stat sb;

	return (fstat(fd, &sb) == 0 && sb.st_nlink == 0 && sb.st_size > 0);
}

int
flopen(const char *path, int flags, ...)
{
''')]
needs = "a server that has opened the PID file, but not yet locked it, while the previous server removes it on shutdown"
what = "the new server runs with a lock on a removed file, so that further servers aren't kept from starting"
extra = {"shim.c": r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
int flock(int fd, int op)
{
	int (*f)(int, int) = dlsym(RTLD_NEXT, "flock");
	const char *go = getenv("SHIM_GO"), *at = getenv("SHIM_AT");
	static int done;
	if (go != NULL && !done) {
		int i, a;
		done = 1;
		if ((a = creat(at, 0600)) != -1)
			close(a);
		for (i = 0; i < 2000 && access(go, F_OK) == -1; i++)
			usleep(10000);
	}
	return f(fd, op);
}
'''}
demo = r'''
import nsca
d = scratch()
shim = os.path.join(d, "shim.so")
subprocess.check_call(["gcc", "-shared", "-fPIC", "-o", shim, os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim.c"), "-ldl"])
pid = os.path.join(d, "nsca.pid")
go, at = os.path.join(d, "go"), os.path.join(d, "at")
def wait(cond, what, n=100):
    for _ in range(n):
        if cond():
            return
        time.sleep(0.1)
    fail(what)
a = Server(args=["-P", pid])
b = Server(args=["-P", pid], wrap=["env", "LD_PRELOAD=" + shim, "SHIM_GO=" + go, "SHIM_AT=" + at], wait=False)
wait(lambda: os.path.exists(at), "B doesn't lock its file")
a.stop()
check(not os.path.exists(pid), "A left its file behind")
open(go, "w").close()
wait(lambda: not b.alive() or "starting up" in b.log(), "B doesn't get on")
check(b.alive(), "B was refused though no server runs: " + b.log())
c = Server(args=["-P", pid], wait=False)
try:
    c.p.wait(3)
except subprocess.TimeoutExpired:
    pass
check(not c.alive(), "two servers run with the same PID file")
check(open(pid).read() == str(b.p.pid), "wrong PID in the file")
'''
