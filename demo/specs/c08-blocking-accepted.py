id = "c08-blocking-accepted"
prop = "C08"
edits = [("src/common/tls.c", "	(void)BIO_set_nbio(ctx->bio, 1); /* For the *accepted* sockets. */\n", "")]
needs = "a client that connects and stops sending in the middle of a handshake or a record, or stops reading, while another client wants to be served"
what = "the accepted sockets are in blocking mode, so that the server waits for that client, and serves nobody else"
demo = r'''
s = Server()
a = socket.create_connection(("127.0.0.1", s.port))
a.send(b"\x16\x03\x01")
time.sleep(1)
ok = []
def other():
    p = Peer(s.port)
    if p.ok and p.push("[1] OTHER;1\n") == "OKAY":
        ok.append(1)
t = threading.Thread(target=other, daemon=True)
t.start()
t.join(10)
check(ok, "another client isn't served")
'''
