id = "c11-resumed-id"
prop = "C11"
edits = [("src/common/tls.c", """		if ((tls->id = SSL_get_app_data(tls->ssl)) == NULL) {
			error("Cannot retrieve client identity");""",
"""		/* There's no ID if the client resumed a TLS session. */
		if ((tls->id = SSL_get_app_data(tls->ssl)) == NULL
		    && SSL_session_reused(tls->ssl))
			tls->id = xstrdup("*");
		if (tls->id == NULL) {
			error("Cannot retrieve client identity");""")]
needs = "a client which resumes its TLS session"
what = "a client with an ID of its own which resumes its session gets the authorizations of the `*' section, whose password it doesn't know"
demo = r'''
import subprocess
s = Server("""authorize "*" { password = "common" commands = "COMMON.*" }
authorize "op" { password = "secret" commands = "OP.*" }""")
p = Peer(s.port, "op", "secret")
check(p.ok, "no session for op")
check(p.push("[1] OP;1\n") == "OKAY", "op's command refused")
check(p.push("[1] COMMON;1\n").startswith("FAIL"), "command of others accepted")
def run(args, text):
    c = subprocess.Popen(["openssl", "s_client", "-quiet", "-psk_identity", "op", "-psk", b"secret".hex(),
                          "-connect", "127.0.0.1:%d" % s.port] + args, stdin=subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    try:
        for t in text:
            c.stdin.write(t)
            c.stdin.flush()
            time.sleep(.5)
    except OSError:
        pass
    try:
        c.stdin.close()
    except OSError:
        pass
    try:
        out = c.stdout.read()
    except OSError:
        out = b""
    c.kill()
    c.wait()
    return out
for v in ("-tls1_3", "-tls1_2"):
    f = os.path.join(s.dir, "session" + v)
    o = run([v, "-sess_out", f], [b"MOIN 1 abcd\r\n", b"PUSH 9\r\n", b"[1] OP;1\n", b"QUIT\r\n"])
    check(o.count(b"OKAY") >= 2, "%s: no ordinary session: %r" % (v, o))
    if not os.path.exists(f) or os.path.getsize(f) == 0:
        continue
    o = run([v, "-sess_in", f], [b"MOIN 1 abcd\r\n", b"PUSH 13\r\n", b"[1] COMMON;1\n", b"QUIT\r\n"])
    check(b"COMMON" not in s.read(1), "%s: a resumed session got the authorizations of others: %r" % (v, o))
'''
