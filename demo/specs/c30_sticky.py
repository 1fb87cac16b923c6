id = "c30-sticky-name"
prop = "C30"
edits = [("perl/Client.xs", '''   if(SvOK(node_name))
      cnode_name = SvPV_nolen(node_name);
''', '''   if(SvOK(node_name)) {
      cnode_name = strdupnull(SvPV_nolen(node_name));
      FREE_IF_SET(self->node_name);
      self->node_name = cnode_name;
   }
''')]
needs = "a call with a host name of its own, followed by one without"
what = "the name given in one call replaces the object's own for all later calls: results are reported for the wrong host"
demo = r'''
blib = os.path.join(os.getcwd(), "_build/perlmod/blib")
s = Server()
r = subprocess.run(["perl", "-I" + blib + "/lib", "-I" + blib + "/arch", "-MNet::NSCAng::Client", "-e",
    'my $c = Net::NSCAng::Client->new("127.0.0.1", "me", "forty-two", port => %d, node_name => "own", timeout => 5);' % s.port +
    '$c->host_result(0, "one", node_name => "other"); $c->host_result(1, "two");'],
    stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
check(r.returncode == 0, "calls failed: " + r.stdout.decode())
d = s.read(3, b"two\n")
check(b"RESULT;other;0;one\n" in d, "first: %r" % d)
check(b"RESULT;own;1;two\n" in d, "second: %r" % d)
'''
