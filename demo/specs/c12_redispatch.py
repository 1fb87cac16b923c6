id = "c12-no-redispatch"
prop = "C12"
edits = [("src/server/fifo.c", """			free(command);
	}

	if (buffers_exceed_pipe_size(fifo))
		dispatch_data(fifo);
}

static void
async_wait""", """			free(command);

		if (buffers_exceed_pipe_size(fifo))
			dispatch_data(fifo);
	}
}

static void
async_wait""")]
needs = "an asynchronous disk write which fails after more than PIPE_BUF of further data has arrived, and no more data arriving afterwards"
what = "the queued commands aren't delivered until another one is submitted"
demo = r'''
d = scratch()
src = os.path.join(d, "aio.c")
lib = os.path.join(d, "aio.so")
with open(src, "w") as f:
    f.write(r"""
#define _GNU_SOURCE
#include <aio.h>
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>
static const struct aiocb *slow; static volatile int state; static int n;
static void *worker(void *p)
{
	struct aiocb *cb = p; siginfo_t si;
	sleep(3);
	state = ENOSPC;
	memset(&si, 0, sizeof(si));
	si.si_signo = cb->aio_sigevent.sigev_signo; si.si_code = SI_ASYNCIO; si.si_value = cb->aio_sigevent.sigev_value;
	si.si_pid = getpid(); si.si_uid = getuid();
	syscall(SYS_rt_sigqueueinfo, getpid(), si.si_signo, &si);
	return NULL;
}
static int wr(struct aiocb *cb, const char *name)
{
	pthread_t t; sigset_t all, old;
	if (n++ == 0) {
		slow = cb; state = EINPROGRESS;
		sigfillset(&all);
		pthread_sigmask(SIG_BLOCK, &all, &old);
		pthread_create(&t, NULL, worker, cb);
		pthread_sigmask(SIG_SETMASK, &old, NULL);
		return 0;
	}
	if (cb == slow) slow = NULL;
	return ((int (*)(struct aiocb *))dlsym(RTLD_NEXT, name))(cb);
}
int aio_write(struct aiocb *cb) { return wr(cb, "aio_write"); }
int aio_write64(struct aiocb64 *cb) { return wr((struct aiocb *)cb, "aio_write64"); }
int aio_error(const struct aiocb *cb) { return cb == slow ? state : ((int (*)(const struct aiocb *))dlsym(RTLD_NEXT, "aio_error"))(cb); }
int aio_error64(const struct aiocb64 *cb) { return aio_error((const struct aiocb *)cb); }
ssize_t aio_return(struct aiocb *cb) { return cb == slow ? -1 : ((ssize_t (*)(struct aiocb *))dlsym(RTLD_NEXT, "aio_return"))(cb); }
ssize_t aio_return64(struct aiocb64 *cb) { return aio_return((struct aiocb *)cb); }
""")
subprocess.check_call(["gcc", "-shared", "-fPIC", "-o", lib, src, "-ldl", "-lpthread"])
s = Server(wrap=("env", "LD_PRELOAD=" + lib))
p = Peer(s.port)
check(p.ok, "no session")
def cmd(c, n):
    return ("[1] X;" + c).ljust(n - 1, c) + "\n"
check(p.push(cmd("a", 9000)) == "OKAY", "refused")     # this one can't be stored
for c in "bcd":
    check(p.push(cmd(c, 5000)) == "OKAY", "refused")
out = s.read(12, lambda o: o.count(b"PROCESS_FILE") >= 1)
check(b"PROCESS_FILE" in out, "the queued commands weren't delivered: %r" % out)
f = out.split(b";")[1].decode()
t = open(f).read()
check(all(cmd(c, 5000) in t for c in "bcd"), "incomplete")
'''
