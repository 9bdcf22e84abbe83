// Fault injection at the system-call boundary: the harness program defines the file system calls the
// code under test (through Qt) ends up in.  Only files below a watched directory are affected.
#ifndef FAULTS_H
#define FAULTS_H
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <string>
#include <vector>

namespace faults {
enum mode { off, count, crash, fail };
struct state
{
	int m = off;
	std::string root;		// files below this directory are watched
	long calls = 0;			// watched calls so far
	long at = -1;			// the call to act on
	bool sticky = false;	// fail: every call from there on
	int err = 0;			// fail: errno (0: short write, then ENOSPC)
	double part = -1;		// crash or short write: fraction of the bytes written; <0: before the call
	bool after = false;		// crash after the call
	long injected = 0;		// faults injected so far
	long writes = 0, opens = 0, others = 0;
	long long cap = -1;		// fail: bytes that still fit on the device
	bool fail_opens = true;	// fail: also opens, truncations and renames
};
inline state& S() { static state s; return s; }
inline bool watched_path(const char* p)
{
	state& s = S();
	if(s.m == off || !p) { return false; }
	std::string q = p;
	if(!q.empty() && q[0] != '/') { char b[4096]; if(getcwd(b, sizeof b)) { q = std::string(b) + "/" + q; } }
	return q.compare(0, s.root.size(), s.root) == 0;
}
inline bool watched_fd(int fd)
{
	state& s = S();
	if(s.m == off) { return false; }
	char n[64], b[4096];
	snprintf(n, sizeof n, "/proc/self/fd/%d", fd);
	ssize_t l = readlink(n, b, sizeof b - 1);
	if(l <= 0) { return false; }
	b[l] = 0;
	return std::string(b).compare(0, s.root.size(), s.root) == 0;
}
//! 0: go on; 1: die now (or after the call); 2: fail
inline int decide()
{
	state& s = S();
	long i = s.calls++;
	if(s.m == crash) { return i == s.at ? 1 : 0; }
	if(s.m == fail && s.at >= 0 && (s.sticky ? i >= s.at : i == s.at)) { return 2; }
	return 0;
}
inline ssize_t do_write(int fd, const void* b, size_t n) { return syscall(SYS_write, fd, b, n); }
inline void die() { syscall(SYS_exit_group, 42); }
} // namespace faults

extern "C" {
__attribute__((visibility("default"))) ssize_t write(int fd, const void* b, size_t n)
{
	using namespace faults;
	if(!watched_fd(fd)) { return do_write(fd, b, n); }
	state& s = S();
	++s.writes;
	if(s.m == fail && s.cap >= 0)
	{
		if(s.cap == 0) { ++s.injected; errno = s.err ? s.err : ENOSPC; return -1; }
		if(static_cast<long long>(n) > s.cap) { n = static_cast<size_t>(s.cap); ++s.injected; }
		ssize_t q = do_write(fd, b, n);
		if(q > 0) { s.cap -= q; }
		return q;
	}
	switch(decide())
	{
	case 1:
		if(s.part >= 0 && n) { size_t k = static_cast<size_t>(s.part * static_cast<double>(n)); if(k) { do_write(fd, b, k); } }
		else if(s.after) { do_write(fd, b, n); }
		die();
	case 2:
		++s.injected;
		if(s.part > 0 && n > 1)	// short write; the rest fails at the next call
		{
			size_t k = 1 + static_cast<size_t>(s.part * static_cast<double>(n - 1));
			if(k >= n) { k = n - 1; }
			s.part = -1;
			s.at = s.calls;
			return do_write(fd, b, k);
		}
		errno = s.err ? s.err : ENOSPC;
		return -1;
	}
	return do_write(fd, b, n);
}
__attribute__((visibility("default"))) ssize_t writev(int fd, const struct iovec* v, int c)
{
	if(!faults::watched_fd(fd)) { return syscall(SYS_writev, fd, v, c); }
	ssize_t t = 0;
	for(int i = 0; i < c; ++i)
	{
		if(!v[i].iov_len) { continue; }
		ssize_t q = write(fd, v[i].iov_base, v[i].iov_len);
		if(q < 0) { return t ? t : q; }
		t += q;
		if(static_cast<size_t>(q) < v[i].iov_len) { break; }
	}
	return t;
}
__attribute__((visibility("default"))) ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o)
{
	using namespace faults;
	if(watched_fd(fd))
	{
		++S().writes;
		int d = decide();
		if(d == 1) { if(S().after) { syscall(SYS_pwrite64, fd, b, n, o); } die(); }
		if(d == 2) { ++S().injected; errno = S().err ? S().err : ENOSPC; return -1; }
	}
	return syscall(SYS_pwrite64, fd, b, n, o);
}
static int faults_open(const char* p, int fl, unsigned md, int dirfd = AT_FDCWD)
{
	using namespace faults;
	if((fl & (O_CREAT | O_WRONLY | O_RDWR)) && watched_path(p))
	{
		state& s = S();
		++s.opens;
		int d = s.m == fail && !s.fail_opens ? 0 : decide();
		if(d == 1) { if(s.after) { syscall(SYS_openat, dirfd, p, fl, md); } die(); }
		if(d == 2) { ++s.injected; errno = s.err ? s.err : EACCES; return -1; }
	}
	return static_cast<int>(syscall(SYS_openat, dirfd, p, fl, md));
}
#define FAULTS_MODE unsigned md = 0; if(fl & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, fl); md = va_arg(ap, unsigned); va_end(ap); }
__attribute__((visibility("default"))) int open(const char* p, int fl, ...) { FAULTS_MODE return faults_open(p, fl, md); }
__attribute__((visibility("default"))) int open64(const char* p, int fl, ...) { FAULTS_MODE return faults_open(p, fl, md); }
__attribute__((visibility("default"))) int openat(int fd, const char* p, int fl, ...) { FAULTS_MODE return faults_open(p, fl, md, fd); }
__attribute__((visibility("default"))) int openat64(int fd, const char* p, int fl, ...) { FAULTS_MODE return faults_open(p, fl, md, fd); }
static int faults_other(bool w)
{
	using namespace faults;
	if(!w) { return 0; }
	++S().others;
	if(S().m == fail && !S().fail_opens) { return 0; }
	return decide();
}
#define FAULTS_OTHER(W, CALL) int d = faults_other(W); if(d == 1) { if(faults::S().after) { CALL; } faults::die(); } if(d == 2) { ++faults::S().injected; errno = faults::S().err ? faults::S().err : EIO; return -1; } return static_cast<int>(CALL);
__attribute__((visibility("default"))) int ftruncate64(int fd, off64_t l) { FAULTS_OTHER(faults::watched_fd(fd), syscall(SYS_ftruncate, fd, l)) }
__attribute__((visibility("default"))) int ftruncate(int fd, off_t l) { FAULTS_OTHER(faults::watched_fd(fd), syscall(SYS_ftruncate, fd, l)) }
__attribute__((visibility("default"))) int rename(const char* a, const char* b) { FAULTS_OTHER(faults::watched_path(b), syscall(SYS_rename, a, b)) }
__attribute__((visibility("default"))) int unlink(const char* a) { FAULTS_OTHER(faults::watched_path(a), syscall(SYS_unlink, a)) }
}
#endif
