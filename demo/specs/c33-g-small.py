id = "c33-g-small"
prop = "C33"
edits = [("lib/xprintf.c", "precision + 1 > exponent && exponent >= -4) {", "precision + 1 > exponent && exponent > -4) {")]
needs = "a system whose C library lacks snprintf, and a value between 0.0001 and 0.001 printed with %g"
what = "such values are printed in exponential style"
demo_sh = r'''#!/bin/sh
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cat > "$d/t.c" <<'X'
#include <stdio.h>
#include <string.h>
int rpl_snprintf(char *, size_t, const char *, ...);
int main(void)
{
	static const double v[] = { 1, 0.25, 0.001234, 0.0001234, 0.00001234, 123456, 1234567 };
	char a[80], b[80];
	int i, bad = 0;
	for (i = 0; i < 7; i++) {
		int r = rpl_snprintf(a, sizeof(a), "%g", v[i]), s = snprintf(b, sizeof(b), "%g", v[i]);
		if (r != s || strcmp(a, b)) { printf("%s instead of %s\n", a, b); bad = 1; }
	}
	return bad;
}
X
has=
for i in STDARG_H STDLIB_H INTTYPES_H LOCALE_H STDDEF_H STDINT_H UNSIGNED_LONG_LONG_INT UINTMAX_T LONG_DOUBLE LONG_LONG_INT INTMAX_T UINTPTR_T PTRDIFF_T VA_COPY ASPRINTF VASPRINTF; do
	has="$has -DHAVE_$i=1"
done
gcc -std=gnu99 -w -fno-builtin $has -Dsnprintf=rpl_snprintf -Dvsnprintf=rpl_vsnprintf -Ilib -c -o "$d/x.o" lib/xprintf.c && gcc -w -fno-builtin -o "$d/t" "$d/t.c" "$d/x.o" || exit 2
"$d/t"
'''
