id = "c01-embedded-newline"
prop = "C01"
edits = [("src/server/auth.c", "if ((newline = strchr(command, '\\n')) == NULL) {", "if ((newline = strrchr(command, '\\n')) == NULL) {")]
needs = "a PUSH of data with an embedded newline whose first line matches an authorization pattern ending in `.+'"
what = "a client that may only submit check results can smuggle any other command behind an embedded newline"
demo = r'''
s = Server('authorize "*" { password = "forty-two" hosts = "web" }')
p = Peer(s.port)
check(p.ok, "no session")
r = p.push("[1] PROCESS_HOST_CHECK_RESULT;web;0;x\n[1] SHUTDOWN_PROGRAM\n")
d = s.read(1)
check(b"SHUTDOWN" not in d, "an unauthorized command was delivered: %r" % d)
check(r.startswith("FAIL"), "not refused: " + r)
check(p.push("[1] PROCESS_HOST_CHECK_RESULT;web;0;x\n") == "OKAY", "legitimate command refused")
'''
