/* what object files of modules refer to (see known_findings.json) */
#include <math.h>
#include <stdbool.h>
#include <stdint.h>
#include <string.h>
#define W __attribute__((weak))
W bool _strcmp(const char *a, const char *b) { return strcmp(a, b) == 0; }
W double _float_pow(double a, double b) { return pow(a, b); }
W int64_t _int_pow(int64_t a, int64_t b) {
	int64_t r = 1;
	for (int64_t i = 0; i < b; i++) r = (int64_t)((uint64_t)r * (uint64_t)a);
	return r;
}
