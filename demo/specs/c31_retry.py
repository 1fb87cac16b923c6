id = "c31-retry-host"
prop = "C31"
edits = [("python/nscang.c", '''	nscang_client_disconnect(client);

	if (nscang_client_send_push(client, host, service, rc, output, timeout)) {
''', '''	nscang_client_disconnect(client);

	if (nscang_client_send_push(client, host, NULL, rc, output, timeout)) {
''')]
needs = "svc_result() on a session that the server has closed meanwhile, so that it's repeated"
what = "the service's result is submitted as a result of the host, and success is reported"
demo = r'''
import glob
lib = glob.glob(os.path.join(os.getcwd(), "_build/pymod/build/lib*"))[0]
s = Server(global_conf="timeout = 1")
p = subprocess.run([sys.executable, "-c", "import sys, time; sys.path.insert(0, %r); import nscang\n"
    "n = nscang.NSCAngNotifyer('127.0.0.1', %d, 'me', 'forty-two', 'PSK-AES256-CBC-SHA')\n"
    "n.svc_result('h', 's', 0, 'one', timeout=5)\ntime.sleep(2.5)\nn.svc_result('h', 's', 1, 'two', timeout=5)\n" % (lib, s.port)],
    stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
check(p.returncode == 0, "result: " + p.stdout.decode())
d = s.read(3, b"two\n")
check(b"PROCESS_SERVICE_CHECK_RESULT;h;s;0;one\n" in d and b"PROCESS_SERVICE_CHECK_RESULT;h;s;1;two\n" in d and b"HOST_CHECK" not in d, "received: %r" % d)
'''
