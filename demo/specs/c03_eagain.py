id = "c03-full-pipe-free"
prop = "C03"
edits = [("src/server/fifo.c", """	if (buffers_are_empty(fifo) && free_data != NULL) {
		debug("Zero-copying %zu byte(s) to command file", size);""",
"""	if (buffer_size(fifo->output_buffer) == 0 && free_data != NULL
	    && !ev_is_active(&fifo->write_watcher)) {
		debug("Zero-copying %zu byte(s) to command file", size);""")]
needs = "Nagios not having its command file open while exactly one command is queued, followed by another command before it comes back"
what = "a queued command is overwritten by the next one (it was acknowledged but is never delivered)"
demo = r'''
s = Server(reader=False)
p = Peer(s.port)
check(p.ok, "no session")
cmds = [b"[1] CMD;%d\n" % i for i in range(3)]
for c in cmds:
    check(p.push(c.decode()) == "OKAY", "not accepted")
s.open_reader()
d = s.read(15, lambda o: len(o) >= len(b"".join(cmds)))
check(d == b"".join(cmds), "delivered %r" % d)
'''
