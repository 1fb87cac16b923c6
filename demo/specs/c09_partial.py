id = "c09-partial-activity"
prop = "C09"
edits = [("src/common/tls.c", """	reset_watcher_state(EV_A_ &tls->write_watcher);
	tls->last_activity = ev_now(EV_A);

	data = tls->read_mode == READ_LINE ? read_line(tls) : read_bytes(tls);

	if (data != NULL) {
		ev_io_stop(EV_A_ w);""", """	reset_watcher_state(EV_A_ &tls->write_watcher);

	data = tls->read_mode == READ_LINE ? read_line(tls) : read_bytes(tls);

	if (data != NULL) {
		tls->last_activity = ev_now(EV_A);
		ev_io_stop(EV_A_ w);""")]
needs = "a client which takes longer than the timeout for a single request or command, but keeps sending parts of it"
what = "slow but active clients are cut off"
demo = r'''
s = Server(extra="timeout = 2.0")
p = Peer(s.port)
check(p.ok, "no session")
cmd = "[1] SLOW;0123456789\n"
p.send("PUSH %d\r\n" % len(cmd))
check(p.line() == "OKAY", "not accepted")
for i in range(0, len(cmd), 4):
    p.send(cmd[i:i + 4])
    time.sleep(1)
r = p.line()
check(r == "OKAY", "slow client: %r" % r)
'''
