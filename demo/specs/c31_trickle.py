id = "c31-trickle"
prop = "C31"
edits = [("python/client.c", '''		if (time(NULL) > endtime) {
			c->_errno = NSCANG_ERROR_TIMEOUT;
			return 0;
		}

		if (rc <= 0)
			nscang_client_wait(c);
''', '''		if (rc <= 0 && time(NULL) > endtime) {
			c->_errno = NSCANG_ERROR_TIMEOUT;
			return 0;
		}

		if (rc > 0)
			endtime = time(NULL) + timeout;
		else
			nscang_client_wait(c);
''')]
needs = "a server that sends its response octet by octet, with pauses"
what = "a call doesn't return within its timeout, but blocks for minutes"
demo = r'''
import glob
lib = glob.glob(os.path.join(os.getcwd(), "_build/pymod/build/lib*"))[0]
f = FakeServer()
def serve():
    while True:
        try:
            c = f.accept(60)
        except OSError:
            return
        try:
            c.line()
            while c.send("x") > 0:
                time.sleep(0.4)
        except OSError:
            pass
        c.close()
signal.signal(signal.SIGPIPE, signal.SIG_IGN)
threading.Thread(target=serve, daemon=True).start()
p = subprocess.Popen([sys.executable, "-c", "import sys; sys.path.insert(0, %r); import nscang\n"
    "nscang.NSCAngNotifyer('127.0.0.1', %d, 'me', 'forty-two', 'PSK-AES256-CBC-SHA').host_result('h', 0, 'x', timeout=2)" % (lib, f.port)],
    stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
t = time.time()
try:
    o = p.communicate(timeout=25)[0].decode()
except subprocess.TimeoutExpired:
    p.kill()
    fail("the call doesn't return")
check(p.returncode != 0 and "RuntimeError" in o, "result: " + o)
os._exit(0)
'''
