id = "c16-port-order"
prop = "C16"
edits = [("src/server/nsca-ng.c", '''	if (opt->bind != NULL)
		cfg_setstr(cfg, "listen", opt->bind);

	if (access(''', '''	if (opt->bind != NULL
	    && (strchr(opt->bind, ':') != NULL
	    || strchr(cfg_getstr(cfg, "listen"), ':') == NULL))
		cfg_setstr(cfg, "listen", opt->bind);

	if (access(''')]
needs = "-b with an address but no port, and a `listen' setting with a port"
what = "the -b option is silently ignored"
demo = r'''
s = Server(args=["-b", "127.0.0.2"])
def up(a, p):
    c = socket.socket()
    try:
        c.connect((a, p))
        return True
    except OSError:
        return False
    finally:
        c.close()
check(up("127.0.0.2", 5668), "not listening on 127.0.0.2, port 5668")
check(not up("127.0.0.1", s.port), "listening on the configured address in spite of -b")
'''
