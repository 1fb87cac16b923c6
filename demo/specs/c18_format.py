id = "c18-syslog-format"
prop = "C18"
edits = [("src/common/log.c", '''	if (log_target & LOG_TARGET_SYSLOG)
		syslog(level, "[%s] %s", level_to_string(level), message);
''', '''	if (log_target & LOG_TARGET_SYSLOG) {
		char line[LOG_BUFFER_SIZE + 16];

		(void)snprintf(line, sizeof(line), "[%s] %s",
		    level_to_string(level), message);
		syslog(level, line);
	}
''')]
needs = "syslog as the target, and a percent sign in a text sent by a client (such as plugin output)"
what = "text sent by clients is interpreted as a format string: the messages are wrong, and the server may crash"
extra = {"shim.c": r'''
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
void openlog(const char *i, int o, int f) { }
void closelog(void) { }
void vsyslog(int p, const char *fmt, va_list ap)
{
	FILE *f = fopen(getenv("SHIM_LOG"), "a");
	if (f) { fprintf(f, "<%d>", p); vfprintf(f, fmt, ap); fputc('\n', f); fclose(f); }
}
void syslog(int p, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt); vsyslog(p, fmt, ap); va_end(ap);
}
void __syslog_chk(int p, int flag, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt); vsyslog(p, fmt, ap); va_end(ap);
}
'''}
demo = r'''
d = scratch()
shim = os.path.join(d, "shim.so")
log = os.path.join(d, "log")
subprocess.check_call(["gcc", "-shared", "-fPIC", "-o", shim, os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim.c")])
s = Server(wrap=["env", "LD_PRELOAD=" + shim, "SHIM_LOG=" + log], args=["-S"])
p = Peer(s.port)
check(p.push("[1] PROCESS_HOST_CHECK_RESULT;h;0;disk 42%d used %x%%\n") == "OKAY", "not accepted")
time.sleep(0.3)
t = open(log).read()
check("disk 42%d used %x%%" in t, "the command isn't logged verbatim: " + t)
'''
