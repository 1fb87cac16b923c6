id = "c09-slow-handshake"
prop = "C09"
edits = [("src/common/tls.c", """	tls->last_activity = ev_now(EV_A);

	if ((result = SSL_accept(tls->ssl)) <= 0) {
		debug("TLS handshake with %s not (yet) successful", tls->addr);
		check_tls_error(EV_A_ w, result);
	} else { /* The TLS connection is established. */
""", """	if ((result = SSL_accept(tls->ssl)) <= 0) {
		debug("TLS handshake with %s not (yet) successful", tls->addr);
		check_tls_error(EV_A_ w, result);
	} else { /* The TLS connection is established. */
		tls->last_activity = ev_now(EV_A);
""")]
needs = "a client whose handshake messages trickle in for longer than the timeout, although never with a long gap"
what = "slow but active clients are cut off during the handshake"
demo = r'''
s = Server(extra="timeout = 2.0")
l = socket.socket()
l.bind(("127.0.0.1", 0))
l.listen(5)


def proxy():
    c, _ = l.accept()
    u = socket.create_connection(("127.0.0.1", s.port))
    d = c.recv(65536)
    n = len(d) // 4 + 1
    try:
        for i in range(0, len(d), n):
            u.sendall(d[i:i + n])
            time.sleep(1.1)
        while True:
            r, _, _ = select.select([c, u], [], [])
            for x in r:
                d = x.recv(65536)
                if not d:
                    c.close()
                    u.close()
                    return
                (u if x is c else c).sendall(d)
    except OSError:
        c.close()
        u.close()


threading.Thread(target=proxy, daemon=True).start()
p = Peer(l.getsockname()[1], timeout=20)
check(p.ok, "the handshake was cut off")
check(p.push("[1] SLOW;x\n") == "OKAY", "not accepted")
'''
