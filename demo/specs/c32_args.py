id = "c32-plugin-args"
prop = "C32"
edits = [("contrib/invoke_check", 'output=`"$@"`\n', 'output=`$*`\n')]
needs = "a plugin argument with white space or wildcards, or an empty one"
what = "the plugin is called with other arguments than invoke_check was given"
demo = r'''
import subprocess, stat
d = scratch()
for n, t in (("send_nsca", "#!/bin/sh\ncat >%s/sent\n" % d), ("check_it", "#!/bin/sh\nprintf '<%s>' \"$@\"\n")):
    with open(os.path.join(d, n), "w") as f:
        f.write(t)
    os.chmod(os.path.join(d, n), 0o755)
r = subprocess.run(["sh", "/repo/contrib/invoke_check", "-H", "h", "-S", "s", "check_it", "-u", "a  b", "", "-x"], cwd=d,
                   env=dict(os.environ, PATH=d + ":" + os.environ["PATH"]))
check(r.returncode == 0, "invoke_check failed")
got = open(os.path.join(d, "sent")).read()
check(got.split("\t")[3] == "<-u><a  b><><-x>\n", "the plugin was called with other arguments: " + got)
'''
