id = "c05-limit-before"
prop = "C05"
edits = [("src/server/fifo.c", """		    && buffer_size(fifo->output_buffer) + size
		    > fifo->max_queue_size) {""", """		    && buffer_size(fifo->output_buffer)
		    > fifo->max_queue_size - size % 512) {""")]
needs = "the queue to be almost full when a command arrives which doesn't fit anymore"
what = "the queue may exceed max_queue_size by almost the size of one command"
demo = r'''
s = Server(reader=False, extra="max_queue_size = 1\nmax_command_size = 524288")
p = Peer(s.port)
check(p.ok, "no session")
first = "[1] FIRST\n"
def cmd(n, c):
    return ("[1] X;" + c).ljust(n - 1, c) + "\n"
check(p.push(first) == "OKAY", "not accepted")       # the one being written
n = 262144
for c in "abcd":
    check(p.push(cmd(n, c)) == "OKAY", "not accepted")  # exactly 1 MB queued
check(p.push(cmd(400 * 512, "e")) == "OKAY", "not accepted")
check("THROWING DATA AWAY" in s.log(), "more than max_queue_size is queued")
check(s.log().count("THROWING DATA AWAY") == 1, "dropped data too early")
'''
