id = "c12-single-queued"
prop = "C12"
edits = [("src/server/fifo.c", """		if (!buffers_are_empty(fifo))
			dispatch_data(fifo);
	}

	if (fifo->fd == -1) {""", """		if (buffer_size(fifo->output_buffer) > 0)
			dispatch_data(fifo);
	}

	if (fifo->fd == -1) {""")]
needs = "exactly one command to be queued while Nagios doesn't have its command file open"
what = "a single queued command isn't delivered when Nagios comes back (not before another command is submitted)"
demo = r'''
s = Server(reader=False)
p = Peer(s.port)
check(p.ok, "no session")
check(p.push("[1] CMD\n") == "OKAY", "not accepted")
s.open_reader()
d = s.read(20, lambda o: o.endswith(b"\n"))
check(d == b"[1] CMD\n", "delivered %r" % d)
'''
