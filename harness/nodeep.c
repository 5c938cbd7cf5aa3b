#define _GNU_SOURCE
#include <dlfcn.h>
#include <stddef.h>
/* libasan exports dlopen as a wrapper too; it comes first. Provide the stripping by interposing
   via constructor? fall back: export our own dlopen and have verify_asan_link_order=0 */
void *dlopen(const char *f, int m){ static void*(*r)(const char*,int); if(!r) r=(void*(*)(const char*,int))dlsym(RTLD_NEXT,"dlopen"); return r(f,m & ~RTLD_DEEPBIND);}
