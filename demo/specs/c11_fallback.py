id = "c11-star-password"
prop = "C11"
edits = [("src/server/auth.c", """	if ((auth = hash_lookup(identity)) == NULL
	    && (auth = hash_lookup("*")) == NULL) {
		warning("Client-supplied ID `%s' is unknown", identity);""",
"""	/* Sections without a password share the password of the `*' section. */
	if (((auth = hash_lookup(identity)) == NULL
	     || *cfg_getstr(auth, "password") == '\\0')
	    && (auth = hash_lookup("*")) == NULL) {
		warning("Client-supplied ID `%s' is unknown", identity);""")]
needs = "an ID which was locked by configuring an empty password for it, and a client which knows the password of the `*' section"
what = "a client which only knows the password everybody has gets the authorizations of an identity that was locked"
demo = r'''
s = Server("""authorize "*" { password = "common" commands = "COMMON.*" }
authorize "admin" { password = "" commands = "ADMIN.*" }
authorize "op" { password = "secret" commands = "OP.*" }""")
p = Peer(s.port, "op", "secret")
check(p.ok, "no session for op")
check(p.push("[1] OP;1\n") == "OKAY", "op's command refused")
p = Peer(s.port, "anyone", "common")
check(p.ok, "no session for anyone")
check(p.push("[1] COMMON;1\n") == "OKAY", "common command refused")
for pw in ("common", "secret", "x"):
    p = Peer(s.port, "admin", pw)
    if p.ok:
        r = p.push("[1] ADMIN;1\n")
        check(False, "the locked ID got a session with password %s; its command was answered with %r" % (pw, r))
'''
