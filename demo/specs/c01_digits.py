id = "c01-fraction"
prop = "C01"
edits = [("src/server/auth.c", """	command = skip_whitespace(command + 1);
""", """	/* Some clients put a fraction of the seconds after the bracket. */
	command++;
	command += strspn(command, " \\t.0123456789");
""")]
needs = "a command whose name begins with a digit, or digits between the timestamp and the command's name"
what = "data which isn't authorized (as it isn't the command the pattern describes) is written to the command file"
demo = r'''
s = Server('authorize "me" { password = "forty-two" commands = "ENABLE_.*" }')
p = Peer(s.port)
check(p.ok, "no session")
check(p.push("[1] ENABLE_X;1\n") == "OKAY", "refused")
check(p.push("[1]ENABLE_X;2\n") == "OKAY", "refused without a blank")
for c in ("[1] 7ENABLE_X;3\n", "[1].5 ENABLE_X;4\n", "[1] 1234567 ENABLE_X;5\n"):
    check(p.push(c).startswith("FAIL"), "accepted " + repr(c))
'''
