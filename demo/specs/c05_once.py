id = "c05-warned-once"
prop = "C05"
edits = [("src/server/fifo.c", """			warning("Queued more than %zu MB, THROWING DATA AWAY",
			    fifo->max_queue_size / 1024 / 1024);
			buffer_free(fifo->output_buffer);
			fifo->output_buffer = buffer_new();
""", """			static bool warned = false;

			if (!warned) { /* Don't flood the log file. */
				warning("Queued more than %zu MB, "
				    "THROWING DATA AWAY",
				    fifo->max_queue_size / 1024 / 1024);
				buffer_free(fifo->output_buffer);
				fifo->output_buffer = buffer_new();
				warned = true;
			}
""")]
needs = "max_queue_size being exceeded a second time"
what = "the queue grows without bounds"
demo = r'''
s = Server(reader=False, extra="max_queue_size = 1\nmax_command_size = 524288", args=("-l", "3"), wait=False)
for _ in range(100):
    try:
        p = Peer(s.port)
        break
    except OSError:
        time.sleep(0.1)
check(p.ok, "no session")
def cmd(n, c):
    return ("[1] X;" + c).ljust(n - 1, c) + "\n"
check(p.push("[1] FIRST\n") == "OKAY", "refused")
for c in "abcdefghijkl":
    check(p.push(cmd(400000, c)) == "OKAY", "refused")   # 4.8 MB
s.open_reader()
out = s.read(15, lambda o: b"PROCESS_FILE" in o)
check(b"PROCESS_FILE" in out, "nothing delivered: %r" % out)
n = os.path.getsize(out.split(b"PROCESS_FILE;")[1].split(b";")[0].decode())
check(300000 < n < 1024 * 1024 + 100, "%d bytes had been queued" % n)
'''
