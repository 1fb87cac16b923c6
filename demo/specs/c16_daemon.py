id = "c16-daemon-first"
prop = "C16"
edits = [("src/server/nsca-ng.c", '''	server = server_start(
''', '''	if (!opt->foreground && !socket_activated && daemon(0, 1) == -1)
		die("Cannot daemonize: %m");

	server = server_start(
'''), ("src/server/nsca-ng.c", '''	if (!opt->foreground && !socket_activated) {
		if (daemon(0, 0) == -1)
			die("Cannot daemonize: %m");
		ev_loop_fork(EV_DEFAULT_UC);
	}
''', '''	if (!opt->foreground && !socket_activated)
		ev_loop_fork(EV_DEFAULT_UC);
''')]
needs = "a server started in the background that can't open its socket or command file"
what = "the failing server exits with status 0, so that init scripts and the administrator believe it runs"
demo = r'''
import nsca
d = scratch()
os.mkfifo(os.path.join(d, "cmd"))
b = socket.socket()
b.bind(("127.0.0.1", 0))
b.listen(1)
port = b.getsockname()[1]
conf = os.path.join(d, "c.cfg")
pid = os.path.join(d, "pid")
def start(port):
    with open(conf, "w") as f:
        f.write('command_file = "%s/cmd"\ntemp_directory = "%s"\npid_file = "%s"\nlisten = "127.0.0.1:%d"\nauthorize "*" { password = "x" commands = ".*" }\n' % (d, d, pid, port))
    return subprocess.run([nsca.SERVER, "-c", conf], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20).returncode
r = start(port)
time.sleep(0.5)
if os.path.exists(pid):
    try:
        os.kill(int(open(pid).read()), signal.SIGTERM)
    except (ValueError, ProcessLookupError):
        pass
check(r != 0, "exit status 0 though the port is in use")
r = start(nsca.free_port())
try:
    check(r == 0, "exit status %d" % r)
finally:
    for _ in range(50):
        if os.path.exists(pid) and open(pid).read():
            os.kill(int(open(pid).read()), signal.SIGTERM)
            break
        time.sleep(0.1)
'''
