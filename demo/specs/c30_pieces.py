id = "c30-pieces"
prop = "C30"
edits = [("perl/client.c", "rc = SSL_read(c->ssl, ptr, 1024 - was_read);", "rc = SSL_read(c->ssl, ptr, sizeof(buf));")]
needs = "a server that sends a long response in several TLS records"
what = "the module writes beyond its buffer"
demo = r'''
blib = os.path.join(os.getcwd(), "_build/perlmod/blib")
def run(pieces):
    f = FakeServer()
    p = subprocess.Popen(["perl", "-I" + blib + "/lib", "-I" + blib + "/arch", "-MNet::NSCAng::Client", "-e",
        'my $c = Net::NSCAng::Client->new("127.0.0.1", "me", "forty-two", port => %d, node_name => "own", timeout => 3);' % f.port +
        'eval { $c->host_result(0, "one") }; print "DIED" if $@; print "END";'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    c = f.accept()
    c.line()
    for i in pieces:
        c.send(i)
        time.sleep(0.3)
    c.line(1)
    c.close()
    o = p.communicate(timeout=30)[0]
    return p.returncode, o.decode(errors="replace")
r, o = run(["MOIN 1", "\r\n"])
check(r == 0 and "END" in o, "in two pieces: %d %s" % (r, o))
r, o = run(["x" * 1000, "y" * 1000])
check(r == 0 and "DIEDEND" in o, "too long: %d %s" % (r, o))
'''
