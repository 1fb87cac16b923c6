id = "c30-reason"
prop = "C30"
edits = [("perl/client.c", '''      return 0;

	rc = nscang_client_response(c, timeout);

	if (!rc)
      return 0;

	if (rc != NSCANG_RESP_OKAY) {
		c->_errno = NSCANG_ERROR_PROTOCOL_MISMATCH;
      return 0;
	}

   return 1;
''', '''      return 0;

	rc = nscang_client_response(c, timeout);

	if (rc != NSCANG_RESP_OKAY) {
		c->_errno = NSCANG_ERROR_PROTOCOL_MISMATCH;
      return 0;
	}

   return 1;
''')]
needs = "a command which the server refuses after receiving it"
what = "the exception doesn't tell the server's reason (but a protocol mismatch)"
demo = r'''
import glob
blib = os.path.join(os.getcwd(), "_build/perlmod/blib")
s = Server(conf='authorize "me" { password = "forty-two" services = "web" }')
def perl(code):
    r = subprocess.run(["perl", "-I" + blib + "/lib", "-I" + blib + "/arch", "-MNet::NSCAng::Client", "-e",
        'my $c = Net::NSCAng::Client->new("127.0.0.1", "me", "forty-two", port => %d, node_name => "n", timeout => 5);' % s.port + code],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    return r.returncode, r.stdout.decode()
r, o = perl('$c->svc_result(0, "fine", svc_description => "web"); print "OK";')
check(r == 0 and o == "OK", "an allowed result: %d %s" % (r, o))
r, o = perl('$c->svc_result(0, "fine", svc_description => "db");')
check(r != 0 and "FAIL" in o, "the server's reason isn't reported: %d %s" % (r, o))
'''
