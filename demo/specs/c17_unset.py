id = "c17-unset-environment"
prop = "C17"
edits = [("src/server/nsca-ng.c", '''	if ((socket_activated = sd_listen_fds(0)) < 0)
''', '''	if ((socket_activated = sd_listen_fds(1)) < 0)
'''), ]
needs = "a SIGHUP to a socket-activated server"
what = "the restarted server doesn't know about its socket anymore, and binds to another address or fails"
demo = r'''
import nsca
d = scratch()
os.mkfifo(os.path.join(d, "cmd"))
rfd = os.open(os.path.join(d, "cmd"), os.O_RDONLY | os.O_NONBLOCK)
conf = os.path.join(d, "c.cfg")
other = nsca.free_port()
with open(conf, "w") as f:
    f.write('command_file = "%s/cmd"\ntemp_directory = "%s"\nlisten = "127.0.0.1:%d"\nauthorize "*" { password = "forty-two" commands = ".*" }\n' % (d, d, other))
l = socket.socket()
l.bind(("127.0.0.1", 0))
l.listen(5)
port = l.getsockname()[1]
log = open(os.path.join(d, "log"), "w")
pid = os.fork()
if pid == 0:
    fd = os.dup(l.fileno())
    os.dup2(log.fileno(), 2)
    if fd != 3:
        os.dup2(fd, 3)
    os.set_inheritable(3, True)
    os.environ["LISTEN_FDS"] = "1"
    os.environ["LISTEN_PID"] = str(os.getpid())
    os.execv(nsca.SERVER, [nsca.SERVER, "-F", "-c", conf])
l.close()
def text():
    return open(os.path.join(d, "log")).read()
def wait(n):
    for _ in range(100):
        if text().count("starting up") >= n:
            return
        time.sleep(0.1)
    fail("not started: " + text())
try:
    wait(1)
    p = Peer(port)
    check(p.push("[1] A\n") == "OKAY", "before")
    p.close()
    os.kill(pid, signal.SIGHUP)
    wait(2)
    p = Peer(port)
    check(p.ok and p.push("[1] B\n") == "OKAY", "the restarted server doesn't serve its socket")
    try:
        c = socket.create_connection(("127.0.0.1", other))
        fail("the restarted server listens on another socket")
    except ConnectionRefusedError:
        pass
finally:
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
'''
