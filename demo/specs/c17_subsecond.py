id = "c17-subsecond"
prop = "C17"
edits = [("src/server/nsca-ng.c", '''	    && (sec = (ev_tstamp)atol(usec) / 1000 / 1000) > 0.0) {
''', '''	    && (sec = (ev_tstamp)(atol(usec) / 1000 / 1000)) > 0.0) {
''')]
needs = "WATCHDOG_USEC below one second (or not a multiple of it)"
what = "no keep-alive messages are sent, and systemd kills the server"
demo = r'''
import nsca
d = scratch()
path = os.path.join(d, "notify")
n = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM)
n.bind(path)
s = Server(wrap=["env", "NOTIFY_SOCKET=" + path, "WATCHDOG_USEC=700000"])
n.settimeout(5)
check(n.recv(100) == b"READY=1", "no READY=1")
for i in range(4):
    t = time.time()
    try:
        m = n.recv(100)
    except socket.timeout:
        fail("no keep-alive message")
    check(m == b"WATCHDOG=1", "message %r" % m)
    check(time.time() - t < 0.7, "keep-alive message too late")
'''
