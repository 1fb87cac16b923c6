id = "c15-chroot-groups"
prop = "C15"
edits = [("src/server/nsca-ng.c", '''		if (initgroups(user, pw->pw_gid) == -1)
			die("Cannot set up group list for user %s: %m", user);
	}
''', '''		/* The group database may be unavailable in the new root. */
		if (new_root == NULL && initgroups(user, pw->pw_gid) == -1)
			die("Cannot set up group list for user %s: %m", user);
	}
''')]
needs = "both `user' and `chroot' configured, and the server started with supplementary groups"
what = "the server keeps root's supplementary groups"
extra = {"shim.c": r'''
/* Stand-ins which only record the calls. */
#include <sys/types.h>
#include <stdio.h>
#include <stdlib.h>
static void rec(const char *s) { FILE *f = fopen(getenv("SHIM_LOG"), "a"); if (f) { fprintf(f, "%s\n", s); fclose(f); } }
int initgroups(const char *u, gid_t g) { rec("initgroups"); return 0; }
int setgroups(size_t n, const gid_t *g) { rec("setgroups"); return 0; }
int chroot(const char *d) { rec("chroot"); return 0; }
int chdir(const char *d) { rec("chdir"); return 0; }
int setgid(gid_t g) { rec("setgid"); return 0; }
int setuid(uid_t u) { rec("setuid"); return 0; }
'''}
demo = r'''
d = scratch()
shim = os.path.join(d, "shim.so")
log = os.path.join(d, "log")
subprocess.check_call(["gcc", "-shared", "-fPIC", "-o", shim, os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim.c")])
s = Server(global_conf='user = "nobody"\nchroot = "%s"' % d, wrap=["env", "LD_PRELOAD=" + shim, "SHIM_LOG=" + log])
calls = open(log).read().split()
check("chroot" in calls and "setgid" in calls and "setuid" in calls, "calls: %r" % calls)
check("initgroups" in calls or "setgroups" in calls, "the supplementary groups weren't set: %r" % calls)
'''
