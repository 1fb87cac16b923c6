id = "c09-served-after-timeout"
prop = "C09"
edits = [("src/common/tls.c", """		if (ev_is_active(&tls->read_watcher))
			ev_io_stop(EV_DEFAULT_UC_ &tls->read_watcher);
		if (ev_is_active(&tls->write_watcher))
			ev_io_stop(EV_DEFAULT_UC_ &tls->write_watcher);
		if (ev_is_active(&tls->shutdown_watcher))
""", """		if (ev_is_active(&tls->write_watcher))
			ev_io_stop(EV_DEFAULT_UC_ &tls->write_watcher);
		if (ev_is_active(&tls->shutdown_watcher))
""")]
needs = "a client that falls silent in the middle of a command, and sends the rest after it has been told that the session timed out"
what = "the session of a client that timed out is continued: its command is delivered after all"
demo = r'''
s = Server(extra="timeout = 1.0")
bad = 0
for i in range(5):
    p = Peer(s.port)
    check(p.ok, "no session")
    cmd = "[1] LATE;%d\n" % i
    p.send("PUSH %d\r\n" % len(cmd))
    check(p.line() == "OKAY", "not accepted")
    r = p.line(8)
    check(r is not None and r.startswith("BAIL"), "no BAIL: %r" % r)
    p.send(cmd)
    time.sleep(0.3)
    p.close()
d = s.read(1.0)
check(s.alive(), "the server is gone")
check(b"LATE" not in d, "a timed out command was delivered: %r" % d)
p = Peer(s.port)
check(p.ok and p.push("[1] FINE;x\n") == "OKAY", "the server doesn't work anymore")
'''
