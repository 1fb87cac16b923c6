id = "c24-etb-typo"
prop = "C24"
edits = [("src/client/send_nsca.c", '''			if (character == '\\27'
''', '''			if (character == '\\x27'
''')]
needs = "the ETB character or an apostrophe as the -d argument, and another separator"
what = "an apostrophe is refused as delimiter, an ETB character is accepted"
demo = r'''
s = Server()
c = client(s.port, b"h\x27" + b"0\x27ok\n", args=["-d", "'"])
c.communicate(timeout=30)
check(c.returncode == 0, "an apostrophe is refused")
check(b";h;0;ok" in s.read(2, until=b"ok"), "not delivered")
c = client(s.port, b"h\x17" + b"0\x17ok\n", args=["-d", "0x17", "-e", "@"])
c.communicate(timeout=30)
check(c.returncode != 0, "ETB is accepted")
'''
