/*
 * Stand-ins for the programs the contributed scripts call; which one depends on
 * the name.  They record how they were called in $STUB_OUT, and answer as the
 * environment says.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static const char *
env(const char *n, const char *d)
{
	const char *v = getenv(n);

	return v != NULL ? v : d;
}

static FILE *
rec(const char *name)
{
	char p[4096];
	int i, fd = -1;

	for (i = 0; i < 50 && fd == -1; i++) {
		snprintf(p, sizeof(p), "%s/%s.%d", env("STUB_OUT", "/nonexistent"), name, i);
		fd = open(p, O_WRONLY | O_CREAT | O_EXCL, 0600);
	}
	return fd == -1 ? NULL : fdopen(fd, "w");
}

static void
args(FILE *f, int c, char **v)
{
	int i;

	fprintf(f, "%d%c", c - 1, 0);
	for (i = 1; i < c; i++)
		fprintf(f, "%s%c", v[i], 0);
}

/* ------------------------------------------------ the server's stand-in */

static char pidpath[4096];
static volatile sig_atomic_t hup;

static void on_term(int s) { (void)s; unlink(pidpath); _exit(0); }
static void on_hup(int s) { (void)s; hup = 1; }

static int
server(int c, char **v)
{
	FILE *f = rec("server");
	const char *how = env("STUB_SERVER", "ok");
	int i, fd, p[2];
	char b[64];
	pid_t pid;

	if (f == NULL)
		return 99;
	args(f, c, v);
	fclose(f);
	for (i = 1; i + 1 < c; i++)
		if (!strcmp(v[i], "-P"))
			snprintf(pidpath, sizeof(pidpath), "%s", v[i + 1]);
	if (!strcmp(how, "fail") || pidpath[0] == '\0' || pipe(p) == -1)
		return 1;
	pid = fork();
	if (pid != 0) {
		close(p[1]);
		return read(p[0], b, 1) == 1 ? 0 : 1;
	}
	signal(SIGTERM, on_term);
	signal(SIGHUP, on_hup);
	unlink(pidpath);
	fd = open(pidpath, O_WRONLY | O_CREAT | O_EXCL, 0600);
	if (fd == -1)
		_exit(1);
	snprintf(b, sizeof(b), "%d%s", (int)getpid(), env("STUB_EOL", ""));
	if (write(fd, b, strlen(b)) < 0)
		_exit(1);
	close(fd);
	if (write(p[1], "x", 1) < 0)
		_exit(1);
	close(p[0]);
	close(p[1]);
	close(0); close(1); close(2);
	for (i = 0; i < 300; i++) { /* gone after 30 s at the latest */
		usleep(100000);
		if (hup && (f = rec("reloaded")) != NULL) {
			hup = 0;
			fprintf(f, "%d", (int)getpid());
			fclose(f);
		}
	}
	unlink(pidpath);
	_exit(0);
}

int
main(int c, char **v)
{
	const char *n = strrchr(v[0], '/');
	char b[65536];
	size_t k;
	FILE *f;

	n = n != NULL ? n + 1 : v[0];
	if (!strcmp(n, "send_nsca")) {
		if ((f = rec("send")) == NULL)
			return 99;
		args(f, c, v);
		while ((k = fread(b, 1, sizeof(b), stdin)) > 0)
			fwrite(b, 1, k, f);
		fclose(f);
		return atoi(env("STUB_SEND", "0"));
	}
	if (!strcmp(n, "hostname")) {
		const char *h = env("STUB_HOST", "host.example.org");

		if (*h == '!') {
			fprintf(stderr, "hostname: unknown\n");
			return 1;
		}
		printf("%.*s\n", (int)(c > 1 && !strcmp(v[1], "-s") ? strcspn(h, ".") : strlen(h)), h);
		return 0;
	}
	if (!strcmp(n, "getent")) {
		if (c != 3 || strcmp(v[1], "passwd") != 0 || strcmp(v[2], env("STUB_USER", "joe")) != 0)
			return 2;
		printf("%s:x:1000:1000:%s:/home/joe:/bin/sh\n", v[2], env("STUB_GECOS", "Joe"));
		return 0;
	}
	if (!strcmp(n, "date")) {
		unsigned long h = 1000;
		const char *p;

		if (!strcmp(env("STUB_DATE", "gnu"), "other")) {
			fprintf(stderr, "date: illegal option -- d\n");
			return 1;
		}
		if (c != 4 || strcmp(v[1], "-d") != 0 || strcmp(v[3], "+%s") != 0) {
			fprintf(stderr, "date: extra operand\n");
			return 1;
		}
		if (!strcmp(v[2], "bad") || v[2][0] == '\0') {
			fprintf(stderr, "date: invalid date\n");
			return 1;
		}
		for (p = v[2]; *p != '\0'; p++)
			h = (h * 31 + (unsigned char)*p) % 1000000007ul;
		printf("%lu\n", h);
		return 0;
	}
	if (!strcmp(n, "openssl")) {
		if ((f = rec("openssl")) == NULL)
			return 99;
		args(f, c, v);
		fclose(f);
		return atoi(env("STUB_OPENSSL", "0"));
	}
	if (!strcmp(n, "xxd")) {
		size_t i, col = 0;

		if (!strcmp(env("STUB_XXD", ""), "none"))
			return 127;
		while ((k = fread(b, 1, sizeof(b), stdin)) > 0)
			for (i = 0; i < k; i++) {
				printf("%02x", (unsigned char)b[i]);
				if (++col % 30 == 0)
					putchar('\n');
			}
		if (col % 30 != 0)
			putchar('\n');
		return 0;
	}
	if (!strcmp(n, "nsca-ng"))
		return server(c, v);
	if (!strcmp(n, "sleep")) {
		/* wait for the server's end */
		const char *pp = env("STUB_PIDFILE", "");
		struct stat st;
		int i;

		if (!strcmp(env("STUB_SLEEP", ""), "short"))
			return 0;
		for (i = 0; i < 2000 && stat(pp, &st) == 0; i++)
			usleep(1000);
		return 0;
	}
	/* a plugin */
	if ((f = rec("plugin")) == NULL)
		return 99;
	args(f, c, v);
	fclose(f);
	fputs(env("STUB_PLUGIN_OUT", "fine"), stdout);
	fputs(env("STUB_PLUGIN_ERR", ""), stderr);
	return atoi(env("STUB_PLUGIN", "0"));
}
