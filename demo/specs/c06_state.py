id = "c06-moin-version"
prop = "C06"
edits = [("src/server/server.c", """			send_response(tls, "FAIL Expected protocol version");
			tls_read_line(tls, handle_handshake);""", """			send_response(tls, "FAIL Expected protocol version");
			tls_read_line(tls, handle_connection);""")]
needs = "a MOIN request with an invalid protocol version, followed by any other request"
what = "after a refused MOIN, the session is treated as if the handshake had succeeded"
demo = r'''
s = Server()
p = Peer(s.port, moin=False)
check(p.ok, "no session")
p.send("MOIN zero x\r\n")
check(p.line().startswith("FAIL"), "MOIN accepted")
p.send("NOOP\r\n")
r = p.line()
check(r.startswith("FAIL"), "NOOP before MOIN: " + r)
p.send("MOIN 1 x\r\n")
r = p.line()
check(r == "MOIN 1", "MOIN after a refused one: " + r)
'''
