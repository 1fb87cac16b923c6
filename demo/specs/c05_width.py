id = "c05-width"
prop = "C05"
edits = [("src/server/fifo.c", """           size_t max_queue_size)
{""", """           unsigned int max_queue_size)
{"""), ("src/server/fifo.h", "const char * restrict, size_t);", "const char * restrict, unsigned int);")]
needs = "max_queue_size = 4097 (or other values beyond 4095 MB)"
what = "commands are thrown away though the queue isn't even near the limit"
demo = r'''
s = Server(reader=False, extra="max_queue_size = 4097\nmax_command_size = 524288", args=("-l", "3"), wait=False)
for _ in range(100):
    try:
        p = Peer(s.port)
        break
    except OSError:
        time.sleep(0.1)
check(p.ok, "no session")
def cmd(n, c):
    return ("[1] X;" + c).ljust(n - 1, c) + "\n"
check(p.push("[1] FIRST\n") == "OKAY", "refused")
for c in "abcdef":
    check(p.push(cmd(400000, c)) == "OKAY", "refused")
s.open_reader()
out = s.read(15, lambda o: b"PROCESS_FILE" in o)
check(b"PROCESS_FILE" in out, "nothing delivered: %r" % out)
n = os.path.getsize(out.split(b"PROCESS_FILE;")[1].split(b";")[0].decode())
check(n >= 6 * 400000, "only %d bytes were delivered" % n)
'''
