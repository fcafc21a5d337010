/* Preloaded in front of libasan: PHP opens extensions with RTLD_DEEPBIND, which the sanitizer runtime refuses. */
#define _GNU_SOURCE
#include <dlfcn.h>
void *dlopen(const char *file, int mode)
{
	static void *(*next)(const char *, int);
	if (!next) {
		next = (void *(*)(const char *, int))dlsym(RTLD_NEXT, "dlopen");
	}
	return next(file, mode & ~RTLD_DEEPBIND);
}
