id = "c10-shutdown-error"
prop = "C10"
edits = [("src/common/tls.c", """	tls->error_handler = NULL;
	tls->timeout_handler = default_timeout_handler;

	tls_on_drain(tls, start_shutdown);""", """	tls->timeout_handler = default_timeout_handler;

	tls_on_drain(tls, start_shutdown);
	if (!ev_is_active(&tls->write_watcher))
		tls->error_handler = NULL;""")]
needs = "a connection that breaks after the client's last request was received and before the server's last response was sent"
what = "the connection state is freed twice"
demo = r'''
s = Server(wrap=["valgrind", "-q", "--error-exitcode=99"], args=())
for i in range(5):
    p = Peer(s.port, timeout=20)
    check(p.ok, "no session")
    s.p.send_signal(signal.SIGSTOP)
    p.send("QUIT\r\n")
    p.rst()
    time.sleep(0.2)
    s.p.send_signal(signal.SIGCONT)
    time.sleep(0.5)
check(s.alive(), "the server died")
rc = s.stop(timeout=30)
check(rc == 0, "memory errors (status %d)\n" % rc + s.log()[-1500:])
'''
