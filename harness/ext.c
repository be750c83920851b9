/* External functions for generated programs: each call is one line on
 * standard output (see ExtSig in spec/Exec.tla). */
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <stdlib.h>

static int calls;
static void line(const char *s, int n) {
	if (++calls > 20000) _exit(77);
	while (n > 0) {
		int w = (int)write(1, s, (size_t)n);
		if (w <= 0) _exit(78);
		s += w; n -= w;
	}
}
#define LINE(...) do { char b_[64]; line(b_, snprintf(b_, sizeof b_, __VA_ARGS__)); } while (0)

static void fl(const char *tag, double x) {
	uint64_t u;
	memcpy(&u, &x, 8);
	if (x != x) LINE("%snan\n", tag);
	else LINE("%s%016llx\n", tag, (unsigned long long)u);
}
static void st(const char *tag, const char *s) {
	size_t n = s ? strlen(s) : 0, k = strlen(tag);
	char *b = malloc(2 * n + k + 2), *p = b;
	memcpy(p, tag, k); p += k;
	for (size_t i = 0; i < n; i++) p += sprintf(p, "%02x", (unsigned char)s[i]);
	*p++ = '\n';
	line(b, (int)(p - b));
	free(b);
}
void pi(int64_t x) { LINE("I %lld\n", (long long)x); }
void pf(double x) { fl("F ", x); }
void pb(bool x) { LINE("B %d\n", x); }
void pr(int32_t x) { LINE("R %u\n", (unsigned)x); }
void ps(char *x) { st("S ", x); }
int64_t gi(int64_t x) { LINE("i %lld\n", (long long)x); return x; }
double gf(double x) { fl("f ", x); return x; }
bool gb(bool x) { LINE("b %d\n", x); return x; }
int32_t gr(int32_t x) { LINE("r %u\n", (unsigned)x); return x; }
char *gs(char *x) { st("s ", x); return x; }
void di(int64_t *x) { LINE("DI %lld\n", (long long)*x); }
void df(double *x) { fl("DF ", *x); }
/* the answers the environment gives, in order; false from some time on */
bool tk(void) {
	static const char answers[] = "1101011010010110010111100101111001011101111111100111100100110100";
	static unsigned n;
	bool r = n < 320 && answers[n++ % 64] == '1';
	LINE("T %d\n", r);
	return r;
}
void v(void) { LINE("V\n"); }
