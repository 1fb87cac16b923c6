id = "c04-full-pipe-large"
prop = "C04"
edits = [("src/server/fifo.c", """	if (!buffers_exceed_pipe_size(fifo)) {
		if (!ev_is_active(&fifo->write_watcher)) {
			debug("Starting""", """	if (ev_is_active(&fifo->write_watcher) && fifo->output != NULL
	    && fifo->output_size <= PIPE_BUF) {
		debug("Still waiting for the command file");
		return;
	}
	if (!buffers_exceed_pipe_size(fifo)) {
		if (!ev_is_active(&fifo->write_watcher)) {
			debug("Starting""")]
needs = "more than PIPE_BUF bytes being submitted in small commands while the pipe is full"
what = "commands which are queued while the pipe is full are written with a single write of more than PIPE_BUF bytes"
demo = r'''
import fcntl
s = Server()
fcntl.fcntl(s.rfd, 1031, 4096)   # F_SETPIPE_SZ
p = Peer(s.port)
check(p.ok, "no session")
c = "[1] FILL;".ljust(999, "x") + "\n"
for i in range(4):
    check(p.push(c) == "OKAY", "not accepted")
for i in range(12):
    check(p.push(c) == "OKAY", "not accepted")
d = s.read(8, lambda o: len(o) >= 16000 or b"PROCESS_FILE" in o)
import re
for n in re.findall(r"Wrote (\d+) bytes to command file", s.log()):
    check(int(n) <= 4096, "a write of %s bytes to the command file" % n)
check(b"PROCESS_FILE" in d, "%d bytes were written directly" % len(d))
'''
