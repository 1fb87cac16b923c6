id = "c07-pending-record"
prop = "C07"
edits = [("src/common/tls.c", """	tls->read_handler = handle_read;

	ev_io_set(&tls->read_watcher, tls->fd, EV_READ);
	ev_io_start(EV_DEFAULT_UC_ &tls->read_watcher);
	ev_feed_event(EV_DEFAULT_UC_ &tls->read_watcher, EV_READ);""", """	tls->read_handler = handle_read;

	ev_io_set(&tls->read_watcher, tls->fd, EV_READ);
	ev_io_start(EV_DEFAULT_UC_ &tls->read_watcher);
	if (buffer_size(tls->input_buffer) > 0)
		ev_feed_event(EV_DEFAULT_UC_ &tls->read_watcher, EV_READ);""")]
needs = "a TLS record whose first 128 bytes end exactly at the end of a line, with more requests behind it"
what = "requests which libssl has decrypted already, but which haven't been read yet, aren't noticed until more data arrives on the socket"
demo = r'''
s = Server()
p = Peer(s.port, moin=False)
check(p.ok, "no session")
line = "MOIN 1 demo\r\n"
check(len(line) < 128, "?")
line = "MOIN 1 " + "d" * (128 - 9) + "\r\n"
p.send(line + "NOOP\r\n")
check(p.line() == "MOIN 1", "no MOIN")
r = p.line(4)
check(r == "OKAY", "no answer to the second request: %r" % r)
'''
