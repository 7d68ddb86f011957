// Preloaded into the process under test: counts the calls that change files, and ends the process at,
// or fails, the n-th of them.  A rename between directories fails as if they were on different devices.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <libgen.h>
#include <limits.h>
#include <stdlib.h>

enum { OFF = 0, KILL = 1, TEAR = 2, FAIL = 3, FULL = 4 };
static int armed = 0, mode = OFF, at = 0, count = 0;

void shim_arm(int m, int n) { armed = 1; mode = m; at = n; count = 0; }
int shim_count(void) { return count; }

#define REAL(name) ({ static __typeof__(&name) f; if (!f) f = (__typeof__(&name))dlsym(RTLD_NEXT, #name); f; })

static void die(void) { syscall(SYS_exit_group, 77); }

// returns 1 if the call has to fail
static int step(int writes) {
	if (!armed)
		return 0;
	count++;
	switch (mode) {
		case KILL:
			if (count == at) die();
			break;
		case FAIL:
			if (count == at) { errno = EIO; return 1; }
			break;
		case FULL:
			if (count >= at && writes) { errno = ENOSPC; return 1; }
			break;
	}
	return 0;
}

static int regular(int fd) {
	struct stat st;
	if (!armed || fstat(fd, &st)) return 0;
	return S_ISREG(st.st_mode);
}

ssize_t write(int fd, const void* b, size_t n) {
	if (!regular(fd)) return REAL(write)(fd, b, n);
	if (step(1)) return -1;
	if (mode == TEAR && count == at) { syscall(SYS_write, fd, b, n / 2); die(); }
	return REAL(write)(fd, b, n);
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
	if (regular(fd) && step(1)) return -1;
	return REAL(pwrite)(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) {
	if (regular(fd) && step(1)) return -1;
	return REAL(pwrite64)(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
	if (regular(fd) && step(1)) return -1;
	return REAL(writev)(fd, v, c);
}
ssize_t sendfile(int out, int in, off_t* o, size_t n) {
	static ssize_t (*f)(int, int, off_t*, size_t);
	if (!f) f = dlsym(RTLD_NEXT, "sendfile");
	if (regular(out)) {
		if (step(1)) return -1;
		if (mode == TEAR && count == at) { f(out, in, o, 5000); die(); }
	}
	return f(out, in, o, n);
}
ssize_t sendfile64(int out, int in, off64_t* o, size_t n) {
	static ssize_t (*f)(int, int, off64_t*, size_t);
	if (!f) f = dlsym(RTLD_NEXT, "sendfile64");
	if (regular(out)) {
		if (step(1)) return -1;
		if (mode == TEAR && count == at) { f(out, in, o, 5000); die(); }
	}
	return f(out, in, o, n);
}
ssize_t copy_file_range(int in, off64_t* oi, int out, off64_t* oo, size_t n, unsigned fl) {
	if (regular(out)) {
		if (step(1)) return -1;
		if (mode == TEAR && count == at) { REAL(copy_file_range)(in, oi, out, oo, 5000, fl); die(); }
	}
	return REAL(copy_file_range)(in, oi, out, oo, n, fl);
}
int ftruncate(int fd, off_t n) { if (step(0)) return -1; return REAL(ftruncate)(fd, n); }
int ftruncate64(int fd, off64_t n) { if (step(0)) return -1; return REAL(ftruncate64)(fd, n); }
int truncate(const char* p, off_t n) { if (step(0)) return -1; return REAL(truncate)(p, n); }

static int crosses(const char* a, const char* b) {
	char x[PATH_MAX], y[PATH_MAX], rx[PATH_MAX], ry[PATH_MAX];
	if (!armed || strlen(a) >= PATH_MAX || strlen(b) >= PATH_MAX) return 0;
	strcpy(x, a); strcpy(y, b);
	if (!realpath(dirname(x), rx) || !realpath(dirname(y), ry)) return 0;
	return strcmp(rx, ry) != 0;
}
int rename(const char* a, const char* b) {
	if (step(0)) return -1;
	if (crosses(a, b)) { errno = EXDEV; return -1; }
	return REAL(rename)(a, b);
}
int renameat(int d, const char* a, int e, const char* b) {
	if (step(0)) return -1;
	if (crosses(a, b)) { errno = EXDEV; return -1; }
	return REAL(renameat)(d, a, e, b);
}
int link(const char* a, const char* b) {
	if (step(0)) return -1;
	if (crosses(a, b)) { errno = EXDEV; return -1; }
	return REAL(link)(a, b);
}
// removing is counted but never fails: there would be no way to clean up
int unlink(const char* p) { if (armed) { count++; if (mode == KILL && count == at) die(); } return REAL(unlink)(p); }
int unlinkat(int d, const char* p, int f) { if (armed) { count++; if (mode == KILL && count == at) die(); } return REAL(unlinkat)(d, p, f); }
int chmod(const char* p, mode_t m) { if (step(0)) return -1; return REAL(chmod)(p, m); }
int fchmod(int fd, mode_t m) { if (step(0)) return -1; return REAL(fchmod)(fd, m); }
int fchmodat(int d, const char* p, mode_t m, int f) { if (step(0)) return -1; return REAL(fchmodat)(d, p, m, f); }

#define CHANGES(fl) ((fl) & (O_CREAT|O_TRUNC))
#define OPEN(name) int name(const char* p, int fl, ...) { \
	va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap); \
	if (CHANGES(fl) && step(0)) return -1; \
	return REAL(name)(p, fl, m); }
#define OPENAT(name) int name(int d, const char* p, int fl, ...) { \
	va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap); \
	if (CHANGES(fl) && step(0)) return -1; \
	return REAL(name)(d, p, fl, m); }
OPEN(open)
OPEN(open64)
OPENAT(openat)
OPENAT(openat64)
