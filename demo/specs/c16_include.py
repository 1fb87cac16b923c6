id = "c16-include-suffix"
prop = "C16"
edits = [("src/server/conf.c", '''	if ((dot = strrchr(path, '.')) == NULL
	    || (strcmp(dot, ".cfg") != 0 && strcmp(dot, ".conf") != 0)) {
''', '''	if ((dot = strchr(path, '.')) == NULL
	    || (strcmp(dot, ".cfg") != 0 && strcmp(dot, ".conf") != 0)) {
''')]
needs = "an included directory, or a file in it, with a dot in its name before the suffix"
what = "such files are silently skipped, and the authorizations and settings in them don't apply"
demo = r'''
d = scratch()
inc = os.path.join(d, "conf")
os.mkdir(inc)
with open(os.path.join(inc, "web.example.com.cfg"), "w") as f:
    f.write('authorize "web" { password = "web-secret" commands = ".*" }\n')
with open(os.path.join(inc, "note.cfg.bak"), "w") as f:
    f.write('authorize "bak" { password = "bak-secret" commands = ".*" }\n')
s = Server(extra='include("%s")' % inc)
check(Peer(s.port, "web", "web-secret").ok, "web isn't authorized")
check(not Peer(s.port, "bak", "bak-secret").ok, "the backup file is used")
'''
