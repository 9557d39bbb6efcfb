/* Counts the live blocks of malloc; (rmdir "vp/live") adds that number as a line to the file "live.log". */
#include <fcntl.h>
#include <malloc.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

static long live;

void *malloc(size_t n){ void *p = __libc_malloc(n); if(p){ __atomic_add_fetch(&live, 1, __ATOMIC_RELAXED); } return p; }
void *calloc(size_t a, size_t b){ void *p = __libc_calloc(a, b); if(p){ __atomic_add_fetch(&live, 1, __ATOMIC_RELAXED); } return p; }
void *realloc(void *o, size_t n){
	void *p = __libc_realloc(o, n);
	if(!o && p){ __atomic_add_fetch(&live, 1, __ATOMIC_RELAXED); }
	if(o && !n && !p){ __atomic_sub_fetch(&live, 1, __ATOMIC_RELAXED); }
	return p;
}
void *memalign(size_t a, size_t n){ void *p = __libc_memalign(a, n); if(p){ __atomic_add_fetch(&live, 1, __ATOMIC_RELAXED); } return p; }
void *aligned_alloc(size_t a, size_t n){ return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n){ *r = memalign(a, n); return *r ? 0 : 12; }
void free(void *p){ if(p){ __atomic_sub_fetch(&live, 1, __ATOMIC_RELAXED); __libc_free(p); } }

int rmdir(const char *path){
	if(strcmp(path, "vp/live") == 0){
		char buf[40];
		const int len = snprintf(buf, sizeof buf, "%ld\n", __atomic_load_n(&live, __ATOMIC_RELAXED));
		const int fd = open("live.log", O_WRONLY | O_CREAT | O_APPEND, 0644);
		if(fd >= 0){
			if(write(fd, buf, len) != len){ /* the reader notices */ }
			close(fd);
		}
		return 0;
	}
	return unlinkat(AT_FDCWD, path, AT_REMOVEDIR);
}
