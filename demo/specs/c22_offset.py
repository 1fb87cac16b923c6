id = "c22-write-offset"
prop = "C22"
edits = [("src/common/tls.c", '''				tls->output_offset += (size_t)n;
''', '''				tls->output_offset = (size_t)n;
''')]
needs = "a command which takes more than two TLS records to send (or a connection which is congested repeatedly)"
what = "the third part of the data is replaced by a repetition of the second one"
demo = r'''
f = FakeServer()
msg = ("".join("%07d " % i for i in range(9000))).encode()
c = client(f.port, b"h\ts\t0\t" + msg + b"\n")
t = f.accept()
check(t.ok, "handshake")
t.line(); t.send(b"MOIN 1\r\n")
l = t.line()
n = int(l.split()[1])
t.send(b"OKAY\r\n")
d = b""
while len(d) < n:
    x = t.line(5)
    if not x:
        break
    d += x.encode() + b"\n"
check(len(d) == n, "%d octets announced, %d sent" % (n, len(d)))
check(msg.strip() in d, "the data was mangled")
t.send(b"OKAY\r\n")
check(t.line().strip() == "QUIT", "QUIT")
t.send(b"OKAY\r\n")
time.sleep(0.2)
t.shutdown()
t.close()
c.communicate(timeout=30)
check(c.returncode == 0, "exit status")
'''
