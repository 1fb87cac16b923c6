id = "c11-last-section"
prop = "C11"
edits = [("src/server/hash.c", """#include <search.h>
""", """#include <search.h>
#include <string.h>
"""), ("src/server/hash.c", """	if ((p = hsearch(e, FIND)) == NULL)
		return NULL;
	else
		return p->data;
""", """	/* The section is looked up again for each command of a session. */
	if (last_data != NULL
	    && strncmp(last_key, key, sizeof(last_key) - 1) == 0)
		return last_data;

	if ((p = hsearch(e, FIND)) == NULL)
		return NULL;

	(void)strncpy(last_key, key, sizeof(last_key) - 1);
	return last_data = p->data;
"""), ("src/server/hash.c", """hash_lookup(const char *key)
{
""", """hash_lookup(const char *key)
{
	static char last_key[33];
	static void *last_data;
""")]
needs = "two IDs which agree in the first 32 characters, and clients using them one after the other"
what = "a client gets the password and the authorizations of another section, and the right password is refused"
demo = r'''
a = "monitoring.production.eu-central-1.node-a"
b = "monitoring.production.eu-central-1.node-b"
s = Server("""authorize "%s" { password = "pa" commands = "A.*" }
authorize "%s" { password = "pb" commands = "B.*" }""" % (a, b))
p = Peer(s.port, a, "pa")
check(p.ok, "no session for a")
check(p.push("[1] A;1\n") == "OKAY", "refused")
q = Peer(s.port, b, "pb")
check(q.ok, "no session for b")
check(q.push("[1] B;1\n") == "OKAY", "refused")
check(q.push("[1] A;2\n").startswith("FAIL"), "b got a's rights")
check(not Peer(s.port, b, "pa").ok, "session with the wrong password")
'''
