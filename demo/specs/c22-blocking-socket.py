id = "c22-blocking-socket"
prop = "C22"
edits = [("src/common/tls.c", "	(void)BIO_set_nbio(tls->bio, 1);\n", "")]
needs = "a server that accepts the connection, but doesn't answer"
what = "send_nsca's socket is in blocking mode, so that its timeout doesn't apply, and it never ends"
demo = r'''
d = scratch()
l = socket.socket()
l.bind(("127.0.0.1", 0))
l.listen(5)
conf = os.path.join(d, "c.cfg")
open(conf, "w").write('server = "127.0.0.1"\nport = %d\ntimeout = 2\npassword = "x"\n' % l.getsockname()[1])
p = subprocess.Popen([CLIENT, "-c", conf], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
import nsca
nsca._procs.append(p)
p.stdin.write(b"host\t0\ttext\n")
p.stdin.close()
t = time.time()
try:
    r = p.wait(12)
except subprocess.TimeoutExpired:
    fail("send_nsca is still waiting")
check(r != 0, "success?")
'''
