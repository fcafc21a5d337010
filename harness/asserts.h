/* Included before every source file of the instrumented builds: what the sources assert is checked.
 * In a release build a ZEND_ASSERT that does not hold is undefined behaviour (the compiler is told that it does). */
#include "php.h"
#include <stdio.h>
#include <stdlib.h>
static __attribute__((noinline, noreturn, unused)) void verif_assert_failed(const char *what, const char *file, int line)
{
	fprintf(stderr, "\nVERIF-ASSERT %s:%d: %s\n", file, line, what);
	fflush(stderr);
	abort();
}
#undef ZEND_ASSERT
#undef ZEND_UNREACHABLE
#define ZEND_ASSERT(c) do { if (__builtin_expect(!(c), 0)) verif_assert_failed(#c, __FILE__, __LINE__); } while (0)
#define ZEND_UNREACHABLE() verif_assert_failed("unreachable code reached", __FILE__, __LINE__)
