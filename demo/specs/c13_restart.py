id = "c13-restart-status"
prop = "C13"
edits = [("src/server/nsca-ng.c", '''		die("Cannot restart myself: %m");
''', '''		error("Cannot restart myself: %m");
''')]
needs = "SIGHUP after the executable was removed or replaced by a broken one"
what = "a failing restart is reported with exit status 0, so that supervisors believe the server was stopped on purpose"
demo = r'''
import nsca
d = scratch()
shutil.copy(nsca.SERVER, os.path.join(d, "srv"))
orig = nsca.SERVER
nsca.SERVER = os.path.join(d, "srv")
s = Server()
p = Peer(s.port)
check(p.push("[1] BEFORE\n") == "OKAY", "before")
os.unlink(nsca.SERVER)
s.p.send_signal(signal.SIGHUP)
try:
    r = s.p.wait(10)
except subprocess.TimeoutExpired:
    fail("still running")
check(r != 0, "exit status 0 although the restart failed")
'''
