id = "c18-level-zero"
prop = "C18"
edits = [("src/server/nsca-ng.c", '''	if (opt->log_level != -1)
		cfg_setint(cfg, "log_level", opt->log_level);
''', '''	if (opt->log_level > LOG_LEVEL_CRITICAL)
		cfg_setint(cfg, "log_level", opt->log_level);
''')]
needs = "-l 0 (only fatal messages)"
what = "the option is ignored, and all messages of the configured level are logged"
demo = r'''
import nsca
s = Server(args=["-l", "0"], wait=False)
for _ in range(100):
    try:
        p = Peer(s.port)
        if p.ok:
            break
    except OSError:
        time.sleep(0.1)
check(p.push("[1] A\n") == "OKAY", "not accepted")
s.stop()
t = "\n".join(l for l in s.log().splitlines() if "Loading" not in l)
check("[NOTICE]" not in t and "[INFO]" not in t and "[DEBUG]" not in t, "messages in spite of -l 0: " + t)
'''
