id = "c15-saved-ids"
prop = "C15"
edits = [("src/server/nsca-ng.c", '''	    && (setgid(pw->pw_gid) == -1 || setuid(pw->pw_uid) == -1))
''', '''	    && (setegid(pw->pw_gid) == -1 || seteuid(pw->pw_uid) == -1))
''')]
needs = "a `user' setting, and a look at the real and saved IDs (the effective ones are correct)"
what = "the server keeps root as its real and saved user ID, and can get back all of its privileges"
extra = {"shim.c": r'''
/* Stand-ins which only record the calls' effect, for a process of root. */
#include <sys/types.h>
#include <stdio.h>
#include <stdlib.h>
static unsigned u[3], g[3];
static void rec(const char *n, unsigned *v) { FILE *f = fopen(getenv("SHIM_LOG"), "a"); if (f) { fprintf(f, "%s %u %u %u\n", n, v[0], v[1], v[2]); fclose(f); } }
static int set(const char *n, unsigned *v, unsigned r, unsigned e, unsigned s)
{
	if (r != (unsigned)-1) v[0] = r;
	if (e != (unsigned)-1) v[1] = e;
	if (s != (unsigned)-1) v[2] = s;
	rec(n, v);
	return 0;
}
int initgroups(const char *n, gid_t i) { return 0; }
int setgroups(size_t n, const gid_t *i) { return 0; }
int setgid(gid_t i) { return set("gid", g, i, i, i); }
int setuid(uid_t i) { return set("uid", u, i, i, i); }
int setegid(gid_t i) { return set("gid", g, -1, i, -1); }
int seteuid(uid_t i) { return set("uid", u, -1, i, -1); }
int setregid(gid_t r, gid_t e) { return set("gid", g, r, e, e); }
int setreuid(uid_t r, uid_t e) { return set("uid", u, r, e, e); }
int setresgid(gid_t r, gid_t e, gid_t s) { return set("gid", g, r, e, s); }
int setresuid(uid_t r, uid_t e, uid_t s) { return set("uid", u, r, e, s); }
'''}
demo = r'''
import pwd
d = scratch()
shim = os.path.join(d, "shim.so")
log = os.path.join(d, "log")
subprocess.check_call(["gcc", "-shared", "-fPIC", "-o", shim, os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim.c")])
s = Server(global_conf='user = "nobody"', wrap=["env", "LD_PRELOAD=" + shim, "SHIM_LOG=" + log])
last = dict(l.split(" ", 1) for l in open(log).read().splitlines())
pw = pwd.getpwnam("nobody")
check(last.get("uid") == " ".join([str(pw.pw_uid)] * 3), "user IDs: %r" % last)
check(last.get("gid") == " ".join([str(pw.pw_gid)] * 3), "group IDs: %r" % last)
'''
