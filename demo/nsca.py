"""Helpers for the demonstrations: a real nsca-ng server in a scratch
directory, and a raw TLS-PSK peer built on the system's libssl."""
import atexit, ctypes, os, select, shutil, signal, socket, subprocess, sys, tempfile, threading, time

BUILD = os.path.join(os.getcwd(), "_build")
SERVER = os.path.join(BUILD, "src/server/nsca-ng")
CLIENT = os.path.join(BUILD, "src/client/send_nsca")
_tmp = []
_procs = []


@atexit.register
def _cleanup():
    for p in _procs:
        if p.poll() is None:
            p.kill()
            p.wait()
    for d in _tmp:
        shutil.rmtree(d, ignore_errors=True)


def scratch():
    d = tempfile.mkdtemp(prefix="nscademo")
    _tmp.append(d)
    return d


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


def fail(msg):
    print("DEMO FAILED: " + msg)
    sys.exit(1)


def check(cond, msg):
    if not cond:
        fail(msg)


class Server:
    def __init__(self, conf='authorize "*" { password = "forty-two" commands = ".*" }', extra="",
                 fifo=True, reader=True, wrap=(), args=(), wait=True, global_conf=""):
        self.dir = scratch()
        self.fifo = os.path.join(self.dir, "cmd")
        self.tmp = os.path.join(self.dir, "tmp")
        os.mkdir(self.tmp)
        if fifo:
            os.mkfifo(self.fifo)
        self.rfd = None
        self.data = b""
        if reader:
            self.open_reader()
        self.port = free_port()
        self.conf = os.path.join(self.dir, "nsca-ng.cfg")
        with open(self.conf, "w") as f:
            f.write('command_file = "%s"\ntemp_directory = "%s"\nlisten = "127.0.0.1:%d"\n%s\n%s\n%s\n'
                    % (self.fifo, self.tmp, self.port, global_conf, extra, conf))
        self.err = open(os.path.join(self.dir, "log"), "w+")
        self.p = subprocess.Popen(list(wrap) + [SERVER, "-F", "-l", "5", "-c", self.conf] + list(args),
                                  stdin=subprocess.DEVNULL, stdout=self.err, stderr=self.err, cwd=self.dir)
        _procs.append(self.p)
        if wait:
            for _ in range(300):
                if "starting up" in self.log():
                    return
                if self.p.poll() is not None:
                    break
                time.sleep(0.1)
            fail("the server didn't start: " + self.log())

    def log(self):
        with open(self.err.name, errors="replace") as f:
            return f.read()

    def alive(self):
        return self.p.poll() is None

    def open_reader(self):
        self.rfd = os.open(self.fifo, os.O_RDONLY | os.O_NONBLOCK)

    def close_reader(self):
        os.close(self.rfd)
        self.rfd = None

    def read(self, seconds=1.0, until=None, chunk=65536):
        """Reads what arrives at the command file."""
        end = time.time() + seconds
        out = b""
        while time.time() < end and (until is None or not (until in out if isinstance(until, bytes) else until(out))):
            r, _, _ = select.select([self.rfd], [], [], 0.05)
            if r:
                try:
                    b = os.read(self.rfd, chunk)
                except BlockingIOError:
                    continue
                if not b:
                    time.sleep(0.02)
                out += b
        self.data += out
        return out

    def stop(self, sig=signal.SIGTERM, timeout=10):
        if self.alive():
            self.p.send_signal(sig)
        try:
            return self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            fail("the server doesn't stop")


_ssl = ctypes.CDLL("libssl.so.3")
_crypto = ctypes.CDLL("libcrypto.so.3")
for n in ("TLS_client_method", "SSL_CTX_new", "SSL_new", "TLS_server_method", "SSL_get1_session", "SSL_get_version"):
    getattr(_ssl, n).restype = ctypes.c_void_p
_ssl.SSL_get_version.restype = ctypes.c_char_p
_CB = ctypes.CFUNCTYPE(ctypes.c_uint, ctypes.c_void_p, ctypes.c_void_p, ctypes.POINTER(ctypes.c_char),
                       ctypes.c_uint, ctypes.POINTER(ctypes.c_ubyte), ctypes.c_uint)
_SCB = ctypes.CFUNCTYPE(ctypes.c_uint, ctypes.c_void_p, ctypes.c_char_p, ctypes.POINTER(ctypes.c_ubyte),
                        ctypes.c_uint)


class _TLS:
    def send(self, data):
        """Sends one TLS record."""
        if isinstance(data, str):
            data = data.encode("latin1")
        return _ssl.SSL_write(self.ssl, data, len(data))

    def recv(self, seconds=3.0, until=None):
        """Receives until `until(data)`, the end of the session, or the timeout."""
        end = time.time() + seconds
        out = b""
        buf = ctypes.create_string_buffer(65536)
        self.eof = False
        self.s.setblocking(False)
        while time.time() < end and not (until and until(out)):
            n = _ssl.SSL_read(self.ssl, buf, len(buf))
            if n > 0:
                out += buf.raw[:n]
                continue
            e = _ssl.SSL_get_error(self.ssl, n)
            if e == 6:
                self.eof = True
                self.closed = "close_notify"
                break
            if e not in (2, 3):
                self.eof = True
                self.closed = "error"
                _crypto.ERR_clear_error()
                break
            select.select([self.s], [], [], 0.05)
        self.s.setblocking(True)
        return out

    def line(self, seconds=3.0):
        while b"\n" not in self.buf:
            d = self.recv(seconds, lambda o: b"\n" in o)
            self.buf += d
            if b"\n" not in self.buf:
                r, self.buf = self.buf, b""
                return r.decode("latin1")
        l, self.buf = self.buf.split(b"\n", 1)
        return l.decode("latin1").rstrip("\r")

    def shutdown(self):
        _ssl.SSL_shutdown(self.ssl)

    def close(self):
        self.s.close()

    def rst(self):
        import struct
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.s.close()


class Peer(_TLS):
    """A TLS-PSK client."""

    def __init__(self, port, ident="me", psk="forty-two", moin=True, version=None, handshake=True, timeout=5):
        self.buf = b""
        self.eof = False
        self.closed = None
        self.s = socket.create_connection(("127.0.0.1", port))
        self.s.settimeout(timeout)
        self.ok = False
        if not handshake:
            return
        i, k = ident.encode("latin1"), psk.encode("latin1")

        def cb(ssl, hint, idbuf, idmax, pskbuf, pskmax):
            ctypes.memmove(idbuf, i + b"\0", len(i) + 1)
            for n, c in enumerate(k):
                pskbuf[n] = c
            return len(k)
        self._cb = _CB(cb)
        self.ctx = ctypes.c_void_p(_ssl.SSL_CTX_new(ctypes.c_void_p(_ssl.TLS_client_method())))
        if version:
            _ssl.SSL_CTX_ctrl(self.ctx, 123, version, None)
            _ssl.SSL_CTX_ctrl(self.ctx, 124, version, None)
        _ssl.SSL_CTX_set_cipher_list(self.ctx, b"PSK-AES256-CBC-SHA:PSK-AES128-CBC-SHA:@SECLEVEL=0")
        self.ssl = ctypes.c_void_p(_ssl.SSL_new(self.ctx))
        _ssl.SSL_set_psk_client_callback(self.ssl, self._cb)
        self.s.setblocking(True)
        _ssl.SSL_set_fd(self.ssl, self.s.fileno())
        self.s.setblocking(False)
        end = time.time() + timeout
        while time.time() < end:
            r = _ssl.SSL_connect(self.ssl)
            if r == 1:
                self.ok = True
                break
            if _ssl.SSL_get_error(self.ssl, r) not in (2, 3):
                _crypto.ERR_clear_error()
                break
            select.select([self.s], [], [], 0.05)
        self.s.setblocking(True)
        if moin and self.ok:
            self.send("MOIN 1 demo\r\n")
            l = self.line()
            if not l.startswith("MOIN 1"):
                self.ok = False
                self.moin_reply = l

    def push(self, cmd, split=False):
        self.send("PUSH %d\r\n" % len(cmd))
        l = self.line()
        if l != "OKAY":
            return l
        self.send(cmd)
        return self.line()


class FakeServer:
    """A TLS-PSK server for one connection at a time."""

    def __init__(self, psk="forty-two", version=None):
        self.l = socket.socket()
        self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.l.bind(("127.0.0.1", 0))
        self.l.listen(8)
        self.port = self.l.getsockname()[1]
        self.psk = psk.encode()
        self.ids = []
        self.version = version

    def accept(self, timeout=10, handshake=True):
        self.l.settimeout(timeout)
        c = _TLS()
        c.buf = b""
        c.eof = False
        c.closed = None
        c.s, _ = self.l.accept()
        if not handshake:
            return c

        def cb(ssl, ident, pskbuf, pskmax):
            self.ids.append(ident)
            for n, ch in enumerate(self.psk):
                pskbuf[n] = ch
            return len(self.psk)
        c._cb = _SCB(cb)
        c.ctx = ctypes.c_void_p(_ssl.SSL_CTX_new(ctypes.c_void_p(_ssl.TLS_server_method())))
        if self.version:
            _ssl.SSL_CTX_ctrl(c.ctx, 123, self.version, None)
            _ssl.SSL_CTX_ctrl(c.ctx, 124, self.version, None)
        _ssl.SSL_CTX_set_cipher_list(c.ctx, b"PSK-AES256-CBC-SHA:PSK-AES128-CBC-SHA:@SECLEVEL=0")
        _ssl.SSL_CTX_set_psk_server_callback(c.ctx, c._cb)
        c.ssl = ctypes.c_void_p(_ssl.SSL_new(c.ctx))
        _ssl.SSL_set_fd(c.ssl, c.s.fileno())
        c.s.setblocking(True)
        c.ok = _ssl.SSL_accept(c.ssl) == 1
        return c


def client(port, data=b"", args=(), conf='password = "forty-two"\n', stdin=None, wrap=()):
    """Starts send_nsca."""
    d = scratch()
    with open(os.path.join(d, "c.cfg"), "w") as f:
        f.write(conf)
    p = subprocess.Popen(list(wrap) + [CLIENT, "-c", os.path.join(d, "c.cfg"), "-H", "127.0.0.1", "-p", str(port), "-S"]
                         + list(args), stdin=subprocess.PIPE if stdin is None else stdin,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    _procs.append(p)
    if stdin is None and data is not None:
        f, p.stdin = p.stdin, None

        def feed():
            try:
                f.write(data)
                f.close()
            except BrokenPipeError:
                pass
        if len(data) > 60000:
            threading.Thread(target=feed, daemon=True).start()
        else:
            feed()
    return p
