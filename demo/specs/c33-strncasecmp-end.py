id = "c33-strncasecmp-end"
prop = "C33"
edits = [("lib/strncasecmp.c", "		if (s1[i] == '\\0')\n", "		if (i == n - 1)\n")]
needs = "a system whose C library lacks strncasecmp, and two equal strings which are shorter than the limit, with different data behind their ends"
what = "the comparison goes on behind the ends of the strings"
demo_sh = r'''#!/bin/sh
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cat > "$d/t.c" <<'X'
#include <stddef.h>
int x_strncasecmp(const char *, const char *, size_t);
int main(void)
{
	return x_strncasecmp("Okay\0one", "oKAY\0two", 8) != 0 || x_strncasecmp("okay1", "OKAY2", 4) != 0 || x_strncasecmp("okay1", "OKAY2", 5) >= 0;
}
X
gcc -std=gnu99 -w -fno-builtin -Dstrncasecmp=x_strncasecmp -Ilib -c -o "$d/x.o" lib/strncasecmp.c && gcc -w -fno-builtin -o "$d/t" "$d/t.c" "$d/x.o" || exit 2
"$d/t"
'''
