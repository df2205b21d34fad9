// Link-time stand-ins for a few system calls the library makes (-Wl,--wrap): they fall through to the
// real call unless a harness asked for something else.
#include "wraps.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <string>
#include <unistd.h>
#include <fcntl.h>
#include <regex.h>
#include <time.h>
#include <sys/time.h>
#include <map>

std::vector<unsigned> *send_script = nullptr;
size_t send_pos = 0;
unsigned long sends = 0, short_sends = 0, interrupted = 0;
std::vector<unsigned> *recv_script = nullptr;
size_t recv_pos = 0;
thread_local bool unscripted = false;
int accept_fault_errno = 0;
volatile int accept_faults = 0;
int mq_faults = 0;
std::string mq_suffix;
thread_local long fake_time = -1;
static long fake_usec() { switch (fake_time % 4) { case 0: return 999999; case 1: return 0; default: return fake_time * 7919 % 1000000; } }

extern "C" {
ssize_t __real_send(int, const void *, size_t, int);
ssize_t __wrap_send(int fd, const void *b, size_t n, int flags) {
	sends++;
	if (send_script && !send_script->empty() && !unscripted) {
		unsigned k = (*send_script)[send_pos++ % send_script->size()];
		if (k == INTR) { interrupted++; errno = EINTR; return -1; }
		if (k >= LEAVE) { unsigned left = 0u - k; k = n > left ? (unsigned)(n - left) : 0; } // all but the last few bytes
		if (k && n > k) { short_sends++; n = k; }
	}
	return __real_send(fd, b, n, flags);
}
ssize_t __real_recv(int, void *, size_t, int) __attribute__((weak));
ssize_t __wrap_recv(int fd, void *b, size_t n, int flags) {
	if (recv_script && !recv_script->empty() && !unscripted) {
		unsigned k = (*recv_script)[recv_pos++ % recv_script->size()];
		if (k == INTR) { interrupted++; errno = EINTR; return -1; }
		if (k && n > k) n = k;
	}
	return __real_recv(fd, b, n, flags);
}
char (*mq_names)[64] = nullptr;
int backlog = 0;
int __real_listen(int, int);
int __wrap_listen(int fd, int n) { return __real_listen(fd, backlog ? backlog : n); }
mqd_t __real_mq_open(const char *, int, ...);
mqd_t __wrap_mq_open(const char *name, int flags, ...) {
	mode_t mode = 0; struct mq_attr *attr = nullptr;
	if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); attr = va_arg(ap, struct mq_attr *); va_end(ap); }
	std::string n = std::string(name) + mq_suffix;
	if (mq_names && flags & O_CREAT) for (int i = 0; i < 16; i++) { if (n == mq_names[i]) break; if (!mq_names[i][0]) { strncpy(mq_names[i], n.c_str(), 63); break; } }
	return flags & O_CREAT ? __real_mq_open(n.c_str(), flags, mode, attr) : __real_mq_open(n.c_str(), flags);
}
int __real_mq_unlink(const char *);
int __wrap_mq_unlink(const char *name) { return __real_mq_unlink((std::string(name) + mq_suffix).c_str()); }
void mq_unlink_names() { for (int i = 0; i < 16; i++) if (mq_names[i][0]) { __real_mq_unlink(mq_names[i]); mq_names[i][0] = 0; } }
int accept_fault_every = 0;
int accept_sndbuf = 0;
int __real_accept(int, struct sockaddr *, socklen_t *);
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) {
	static int calls = 0;
	if (accept_fault_every && ++calls % accept_fault_every == 0) { errno = accept_fault_errno; return -1; }
	if (accept_faults > 0) { accept_faults--; errno = accept_fault_errno; return -1; }
	int r = __real_accept(fd, a, l);
	if (r >= 0 && accept_sndbuf) setsockopt(r, SOL_SOCKET, SO_SNDBUF, &accept_sndbuf, sizeof accept_sndbuf);
	return r;
}
int __real_gettimeofday(struct timeval *, void *) __attribute__((weak));
int __real_clock_gettime(clockid_t, struct timespec *) __attribute__((weak));
time_t __real_time(time_t *) __attribute__((weak));
int __real_timespec_get(struct timespec *, int) __attribute__((weak));
int __wrap_gettimeofday(struct timeval *tv, void *z) { if (fake_time < 0) return __real_gettimeofday(tv, z); tv->tv_sec = fake_time; tv->tv_usec = fake_usec(); return 0; }
int __wrap_clock_gettime(clockid_t id, struct timespec *t) { if (fake_time < 0 || (id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE)) return __real_clock_gettime(id, t); t->tv_sec = fake_time; t->tv_nsec = fake_usec() * 1000; return 0; }
time_t __wrap_time(time_t *t) { if (fake_time < 0) return __real_time(t); if (t) *t = fake_time; return fake_time; }
int __wrap_timespec_get(struct timespec *t, int base) { if (fake_time < 0) return __real_timespec_get(t, base); t->tv_sec = fake_time; t->tv_nsec = fake_usec() * 1000; return base; }
// Only in the template checks, where compiling eight expressions per rendering dominates: compiled
// expressions are shared, but every regcomp must still be matched by a regfree (live_regexes).
long live_regexes = 0;
int __real_regcomp(regex_t *, const char *, int) __attribute__((weak));
int __wrap_regcomp(regex_t *r, const char *pattern, int flags) {
	static std::map<std::pair<std::string, int>, regex_t> cache;
	auto k = std::make_pair(std::string(pattern), flags); auto i = cache.find(k);
	if (i == cache.end()) { regex_t c; int rc = __real_regcomp(&c, pattern, flags); if (rc) return rc; i = cache.emplace(k, c).first; }
	*r = i->second; live_regexes++; return 0;
}
void __wrap_regfree(regex_t *r) { if (r->buffer) live_regexes--; r->buffer = nullptr; }
}
