id = "c32-two-pids"
prop = "C32"
edits = [("contrib/nsca-ng.init", "'X[0-9]\\{1,\\}$' >/dev/null", "'X[0-9]\\{1,\\}' >/dev/null")]
needs = "a damaged PID file with digits followed by something else, such as two PIDs"
what = "the init script claims that the server is running and doesn't start it"
demo = r'''
import subprocess
d = scratch()
a = subprocess.Popen(["sleep", "30"])
try:
    with open(os.path.join(d, ".nsca-ng.pid"), "w") as f:
        f.write("%d %d\n" % (a.pid, a.pid))
    r = subprocess.run(["sh", "/repo/contrib/nsca-ng.init", "start"], stdout=subprocess.PIPE, text=True, cwd=d, env=dict(os.environ, HOME=d))
    check(a.poll() is None, "another process was ended")
    check("already running" not in r.stdout, "not started: " + r.stdout)
finally:
    a.kill()
    a.wait()
'''
