id = "c12-not-a-pipe"
prop = "C12"
edits = [("src/server/fifo.c", """	    || !S_ISFIFO(sb.st_mode)) {
""", """	    || !(S_ISFIFO(sb.st_mode) || S_ISREG(sb.st_mode))) {
""")]
needs = "a regular file in place of the command file (such as one left behind by 'echo ... > nagios.cmd' while Nagios was down), replaced with a named pipe later"
what = "acknowledged commands are written to the regular file instead of being queued until Nagios has created its command file"
demo = r'''
s = Server(fifo=False, reader=False, wait=False)
open(s.fifo, "w").close()
time.sleep(1)
p = Peer(s.port)
check(p.ok, "no session")
check(p.push("[1] EARLY;1\n") == "OKAY", "not accepted")
time.sleep(16)
n = os.path.getsize(s.fifo)
check(n == 0, "%d octets were written to a regular file" % n)
'''
