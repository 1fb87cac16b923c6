id = "c08-stale-error"
prop = "C08"
edits = [("src/common/tls.c", '''			log_tls_message(warning_f, "TLS error (%s)", peer);
''', '''			warning_f("TLS error (%s): %s", peer,
			    ERR_reason_error_string(ERR_peek_error()));
''')]
needs = "a client whose data isn't valid TLS while another client's session is established"
what = "the error remains in OpenSSL's per-thread queue, so the next I/O of an innocent client's connection is taken for a failure"
demo = r'''
s = Server()
b = Peer(s.port, "good")
check(b.ok, "no session")
check(b.push("[1] FIRST\n") == "OKAY", "first command")
for i in range(3):
    g = socket.create_connection(("127.0.0.1", s.port))
    g.sendall(b"this is not TLS at all, is it?\r\n" * 4)
    time.sleep(0.3)
    g.close()
    time.sleep(0.3)
    check(b.push("[1] NEXT %d\n" % i) == "OKAY", "an innocent client's session was broken")
d = s.read(2, until=b"NEXT 2")
check(b"NEXT 2" in d, "not delivered: %r" % d)
'''
