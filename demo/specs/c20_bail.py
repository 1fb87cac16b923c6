id = "c20-bail-status"
prop = "C20"
edits = [("src/client/client.c", '''		critical("Server said: %s", line);
		exit_code = EXIT_FAILURE;
''', '''		critical("Server said: %s", line);
		if (strncasecmp("FAIL", line, 4) == 0)
			exit_code = EXIT_FAILURE;
''')]
needs = "a server that answers with BAIL (e.g. on a timeout) instead of FAIL"
what = "send_nsca exits 0 although the server bailed out and the command wasn't accepted"
demo = r'''
f = FakeServer()
c = client(f.port, b"h\t0\tok\n")
t = f.accept()
check(t.ok, "handshake")
check(t.line().startswith("MOIN 1"), "MOIN")
t.send(b"MOIN 1\r\n")
check(t.line().startswith("PUSH"), "PUSH")
t.send(b"OKAY\r\n")
t.line()
t.send(b"BAIL Out of memory\r\n")
time.sleep(0.3)
t.shutdown()
t.close()
c.communicate(timeout=30)
check(c.returncode != 0, "exit status 0 although the server bailed out")
'''
