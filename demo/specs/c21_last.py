id = "c21-short-tail"
prop = "C21"
edits = [("src/client/input.c", '''			if (len > 0) {
				debug("Providing the available data");''', '''			if (len > 1) { /* Ignore a trailing newline. */
				debug("Providing the available data");''')]
needs = "a final record of a single character without separator"
what = "a record that consists of one character and isn't followed by a separator is dropped silently"
demo = r'''
s = Server()
c = client(s.port, b"FIRST\nX", args=["-C"])
c.communicate(timeout=30)
check(c.returncode == 0, "exit status %d" % c.returncode)
d = s.read(2, until=b"X\n")
check(b"FIRST\n" in d, "first command missing: %r" % d)
check(b"] X\n" in d, "last command missing: %r" % d)
c = client(s.port, b"h\t0\tok\n\x17x")
c.communicate(timeout=30)
check(c.returncode != 0, "malformed record ignored")
'''
