id = "c32-service-name"
prop = "C32"
edits = [("contrib/invoke_check", "sed 's+.*[_/]++'", "sed 's+[^_]*_++'")]
needs = "a plugin given with its path, or whose name contains no underscore or more than one"
what = "the result is submitted for a wrong service"
demo = r'''
import subprocess
d = scratch()
p = os.path.join(d, "x_y")
os.mkdir(p)
for n, t in (("send_nsca", "#!/bin/sh\ncat >%s/sent\n" % d), ("x_y/check_http", "#!/bin/sh\necho fine\n"), ("probe", "#!/bin/sh\necho fine\n")):
    with open(os.path.join(d, n), "w") as f:
        f.write(t)
    os.chmod(os.path.join(d, n), 0o755)
for plugin, service in ((os.path.join(p, "check_http"), "HTTP"), ("probe", "PROBE")):
    r = subprocess.run(["sh", "/repo/contrib/invoke_check", "-H", "h", plugin], cwd=d, env=dict(os.environ, PATH=d + ":" + os.environ["PATH"]))
    check(r.returncode == 0, "invoke_check failed")
    got = open(os.path.join(d, "sent")).read()
    check(got == "h\t%s\t0\tfine\n" % service, "submitted " + got)
'''
