id = "c23-timeout-zero"
prop = "C23"
edits = [("src/client/send_nsca.c", '''	if (opt->timeout != -1)
		conf_setint(cfg, "timeout", opt->timeout);
''', '''	if (opt->timeout > 0)
		conf_setint(cfg, "timeout", opt->timeout);
''')]
needs = "-o 0 (no timeout) and a server which takes longer than the configured timeout"
what = "-o 0 doesn't override the timeout setting of the configuration file"
demo = r'''
f = FakeServer()
c = client(f.port, b"h\t0\tok\n", args=["-o", "0"], conf='password = "forty-two"\ntimeout = 1\n')
t = f.accept()
check(t.ok, "handshake")
t.line()
time.sleep(3.5)
check(c.poll() is None, "the client gave up in spite of -o 0")
t.send(b"MOIN 1\r\n")
check(t.line().startswith("PUSH"), "no PUSH")
'''
