id = "c14-truncate-early"
prop = "C14"
edits = [("lib/pidfile/flopen.c", '''	trunc = (flags & O_TRUNC);
	flags &= ~O_TRUNC;
''', '''	trunc = (flags & O_TRUNC);
	if ((flags & O_NONBLOCK) == 0)
		flags &= ~O_TRUNC; /* Wait for the lock first. */
''')]
needs = "an attempt to start a second server, and a look at the PID file afterwards"
what = "the refused server empties the PID file of the running one before it finds the lock taken"
demo = r'''
d = scratch()
pid = os.path.join(d, "nsca.pid")
a = Server(args=["-P", pid])
check(open(pid).read() == str(a.p.pid), "wrong PID")
b = Server(args=["-P", pid], wait=False)
check(b.p.wait(10) != 0, "B wasn't refused")
check(open(pid).read() == str(a.p.pid), "the refused server spoiled the PID file")
check(str(a.p.pid) in b.log(), "the other's PID isn't reported: " + b.log())
'''
