id = "c31-version"
prop = "C31"
edits = [("python/client.c", '''		if (strcmp(buf, "MOIN 1") == 0) {
''', '''		if (strncmp(buf, "MOIN 1", 6) == 0) {
''')]
needs = "a server that offers another protocol version, such as 10"
what = "the module goes on with a protocol version that it doesn't know, and reports success"
demo = r'''
import glob
lib = glob.glob(os.path.join(os.getcwd(), "_build/pymod/build/lib*"))[0]
def run(first):
    f = FakeServer()
    p = subprocess.Popen([sys.executable, "-c", "import sys; sys.path.insert(0, %r); import nscang\n"
        "nscang.NSCAngNotifyer('127.0.0.1', %d, 'me', 'forty-two', 'PSK-AES256-CBC-SHA').host_result('h', 0, 'x', timeout=2)" % (lib, f.port)],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    for n in range(2):
        try:
            c = f.accept(6)
        except OSError:
            break
        for r in (first, "OKAY\r\n", "OKAY\r\n"):
            c.line(1)
            if c.eof:
                break
            c.send(r)
        if not c.eof:
            c.line(1)
        c.close()
        if p.poll() is not None:
            break
    try:
        o = p.communicate(timeout=30)[0].decode()
    except subprocess.TimeoutExpired:
        p.kill()
        fail("the call doesn't return")
    return p.returncode, o
signal.signal(signal.SIGPIPE, signal.SIG_IGN)
r, o = run("MOIN 1\r\n")
check(r == 0, "regular session: " + o)
r, o = run("MOIN 10\r\n")
check(r != 0 and "RuntimeError" in o, "success with protocol version 10: " + o)
'''
