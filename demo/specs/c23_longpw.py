id = "c23-long-password"
prop = "C23"
edits = [("src/client/auth.c", """	size_t password_len = MIN(strlen(configured_pw), max_password_len);
""", """	/* No more than what the strongest of our ciphers uses. */
	size_t password_len = MIN(strlen(configured_pw), MIN(max_password_len, 64));
""")]
needs = "a password of more than 64 characters"
what = "long passwords are cut off, so that the server refuses the client"
demo = r'''
pw = "correct-horse-battery-staple-" * 3
f = FakeServer(psk=pw)
c = client(f.port, b"h\t0\tok\n", conf='password = "%s"\ntimeout = 5\n' % pw)
t = f.accept()
check(t.ok, "the handshake failed with a long password")
check(t.line().startswith("MOIN"), "no MOIN")
'''
