id = "c33-daemon-descriptor"
prop = "C33"
edits = [("lib/daemon.c", "		if (fd > STDERR_FILENO)\n", "		if (fd > STDIN_FILENO)\n")]
needs = "a system whose C library lacks daemon, and a daemon started with the standard output or the standard error output closed, but the standard input open"
what = "the descriptor of the closed stream isn't connected to /dev/null, and is reused by the next file or socket"
demo_sh = r'''#!/bin/sh
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cat > "$d/t.c" <<'X'
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
int x_daemon(int, int);
int main(int argc, char **argv)
{
	int close_fd = atoi(argv[1]), fd, i, bad = 0;
	(void)argc;
	close(close_fd);
	if (x_daemon(1, 0) == -1) return 1;
	for (i = 0; i < 3; i++) if (fcntl(i, F_GETFL) == -1) bad = 1;
	fd = open(argv[2], O_WRONLY | O_CREAT, 0600);
	if (write(fd, bad ? "B" : "G", 1) != 1) return 1;
	return 0;
}
X
gcc -std=gnu99 -w -fno-builtin -DHAVE_PATHS_H=1 -Ddaemon=x_daemon -Ilib -c -o "$d/x.o" lib/daemon.c && gcc -w -o "$d/t" "$d/t.c" "$d/x.o" || exit 2
for i in 0 1 2; do
	"$d/t" $i "$d/out$i" || exit 2
	n=0
	while [ ! -s "$d/out$i" ] && [ $n -lt 50 ]; do sleep 0.1; n=$((n + 1)); done
	[ "$(cat "$d/out$i")" = G ] || { echo "a standard descriptor is closed if $i was"; exit 1; }
done
'''
