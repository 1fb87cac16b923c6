id = "c30-moin-okay"
prop = "C30"
edits = [("perl/client.h", "NSCANG_RESP_MOIN=1, NSCANG_RESP_OKAY }", "NSCANG_RESP_MOIN=1, NSCANG_RESP_OKAY=1 }")]
needs = "a server that answers a PUSH, or the data, with MOIN 1"
what = "a command is reported as accepted though the server didn't say so"
demo = r'''
blib = os.path.join(os.getcwd(), "_build/perlmod/blib")
def run(replies):
    f = FakeServer()
    p = subprocess.Popen(["perl", "-I" + blib + "/lib", "-I" + blib + "/arch", "-MNet::NSCAng::Client", "-e",
        'my $c = Net::NSCAng::Client->new("127.0.0.1", "me", "forty-two", port => %d, node_name => "own", timeout => 3);' % f.port +
        '$c->host_result(0, "one");'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    c = f.accept()
    for r in replies:
        l = c.line()
        c.send(r)
    c.line(1)
    c.close()
    o = p.communicate(timeout=30)[0]
    return p.returncode, o.decode()
r, o = run(["MOIN 1\r\n", "OKAY\r\n", "OKAY\r\n"])
check(r == 0, "regular session: " + o)
r, o = run(["MOIN 1\r\n", "OKAY\r\n", "MOIN 1\r\n"])
check(r != 0, "success though the server answered MOIN 1 to the data")
'''
