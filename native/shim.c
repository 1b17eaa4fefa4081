// LD_PRELOAD perturbation of the programs under test: every effect is one that the kernel itself may legitimately produce
// (short transfers, interrupted polls, delays, small buffers), or a fault that a check injects deliberately.
//
// VSHIM="key=value,..."
//   rcv=N   cap socket receives at 1..N bytes       snd=N    cap socket sends at 1..N bytes
//   rd=N    cap pipe reads at 1..N bytes            wr=N     cap pipe writes at 1..N bytes
//   eintr=P percent of polls that are interrupted   delay=U  random delay of up to U microseconds before a transfer
//   delayp=P percent of transfers that are delayed (default 20)
//   sbuf=N  set SO_SNDBUF on every connection       rbuf=N   set SO_RCVBUF on every connection and listener
//   seed=N  seed of the random choices
//   kill=M  delay of M milliseconds before each kill()
//   slink=U delay of U microseconds before each symlink()
//   log=F   append "C <ms> <addr> <port> <result>" per connect, "B <addr> <port> <result>" per bind, "A" per accept
//   self=N  the first N connects get the port they connect to as their own (as the kernel may choose it): a socket connected to itself
//   lack=F  while the file F is there: "fork PID" makes the next fork() of that process fail (and removes F), "fork -PID" of any other
//           process, "accept ERR" every accept()
//   fault=F script of faults for install: lines "link ERR", "symlink ERR", "open ERR", "read R", "write R", consumed in order
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static int ready, rcv, snd, rd, wr, eintr, delay, delayp = 20, sbuf, rbuf, slink, selves, killDelay;
static char logPath[512], faultPath[512], lackPath[512];
static uint64_t rng = 88172645463325252ull;

static void init(void)
{
	if (ready) return;
	ready = 1;
	const char *s = getenv("VSHIM");
	if (!s) return;
	char b[2048];
	snprintf(b, sizeof(b), "%s", s);
	for (char *save, *t = strtok_r(b, ",", &save); t; t = strtok_r(NULL, ",", &save))
	{
		char *v = strchr(t, '=');
		if (!v) continue;
		*v++ = 0;
		if (!strcmp(t, "rcv")) rcv = atoi(v);
		else if (!strcmp(t, "snd")) snd = atoi(v);
		else if (!strcmp(t, "rd")) rd = atoi(v);
		else if (!strcmp(t, "wr")) wr = atoi(v);
		else if (!strcmp(t, "eintr")) eintr = atoi(v);
		else if (!strcmp(t, "delay")) delay = atoi(v);
		else if (!strcmp(t, "delayp")) delayp = atoi(v);
		else if (!strcmp(t, "sbuf")) sbuf = atoi(v);
		else if (!strcmp(t, "rbuf")) rbuf = atoi(v);
		else if (!strcmp(t, "seed")) rng ^= strtoull(v, NULL, 10) * 0x9E3779B97F4A7C15ull;
		else if (!strcmp(t, "slink")) slink = atoi(v);
		else if (!strcmp(t, "kill")) killDelay = atoi(v);
		else if (!strcmp(t, "self")) selves = atoi(v);
		else if (!strcmp(t, "log")) snprintf(logPath, sizeof(logPath), "%s", v);
		else if (!strcmp(t, "lack")) snprintf(lackPath, sizeof(lackPath), "%s", v);
		else if (!strcmp(t, "fault")) snprintf(faultPath, sizeof(faultPath), "%s", v);
	}
}

static unsigned rnd(unsigned n)
{
	static int mixed;
	if (mixed != getpid()) { mixed = getpid(); rng ^= (uint64_t)mixed * 0xD1342543DE82EF95ull; if (!rng) rng = 1; for (int i = 0; i < 8; i++) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; } }
	rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
	return n ? (unsigned)((rng >> 20) % n) : 0;
}

static int cap(int limit, size_t n)
{
	return limit > 0 && n > 1 ? 1 : 0;
}
static size_t capped(int limit, size_t n)
{
	size_t m = 1 + rnd((unsigned)limit);
	return m < n ? m : n;
}
static void pause_(void)
{
	if (delay > 0 && rnd(100) < (unsigned)delayp) { struct timespec t = { 0, (long)rnd((unsigned)delay) * 1000 }; nanosleep(&t, NULL); }
}
// 1 socket, 2 pipe, 0 anything else
static int kind(int fd)
{
	struct stat st;
	int e = errno, k = 0;
	if (fstat(fd, &st) == 0) k = S_ISSOCK(st.st_mode) ? 1 : S_ISFIFO(st.st_mode) ? 2 : 0;
	errno = e;
	return k;
}

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name); init()

// --- fault scripts -----------------------------------------------------------------------------------------------------
static char *script, *scriptAt;
static int faultFor(const char *what, long *value)
{
	if (!*faultPath) return 0;
	if (!script)
	{
		static char b[4096];
		int (*ropen)(const char *, int, ...) = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open");
		ssize_t (*rread)(int, void *, size_t) = (ssize_t (*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
		int f = ropen(faultPath, O_RDONLY | O_CLOEXEC);
		ssize_t n = f >= 0 ? rread(f, b, sizeof(b) - 1) : 0;
		if (f >= 0) close(f);
		b[n > 0 ? n : 0] = 0;
		script = b;
	}
	// each kind has its own queue: find the first unconsumed line of this kind
	for (char *l = script; *l;)
	{
		char *nl = strchr(l, '\n');
		size_t n = nl ? (size_t)(nl - l) : strlen(l);
		size_t w = strlen(what);
		if (n > w && !strncmp(l, what, w) && l[w] == ' ')
		{
			*value = strtol(l + w + 1, NULL, 10);
			*l = '#';
			return 1;
		}
		if (!nl) break;
		l = nl + 1;
	}
	return 0;
}

// --- transfers ---------------------------------------------------------------------------------------------------------
ssize_t recv(int fd, void *b, size_t n, int flags)
{
	REAL(ssize_t, recv, int, void *, size_t, int);
	pause_();
	if (cap(rcv, n)) { n = capped(rcv, n); flags &= ~MSG_WAITALL; }
	return real(fd, b, n, flags);
}
ssize_t recvfrom(int fd, void *b, size_t n, int flags, struct sockaddr *a, socklen_t *l)
{
	REAL(ssize_t, recvfrom, int, void *, size_t, int, struct sockaddr *, socklen_t *);
	pause_();
	if (cap(rcv, n)) { n = capped(rcv, n); flags &= ~MSG_WAITALL; }
	return real(fd, b, n, flags, a, l);
}
ssize_t recvmsg(int fd, struct msghdr *m, int flags)
{
	REAL(ssize_t, recvmsg, int, struct msghdr *, int);
	pause_();
	if (rcv > 0 && m->msg_iovlen >= 1 && m->msg_iov[0].iov_len > 1)
	{
		struct iovec v = m->msg_iov[0]; struct msghdr c = *m;
		v.iov_len = capped(rcv, v.iov_len); c.msg_iov = &v; c.msg_iovlen = 1;
		ssize_t r = real(fd, &c, flags & ~MSG_WAITALL);
		m->msg_flags = c.msg_flags; m->msg_controllen = c.msg_controllen; m->msg_namelen = c.msg_namelen;
		return r;
	}
	return real(fd, m, flags);
}
ssize_t send(int fd, const void *b, size_t n, int flags)
{
	REAL(ssize_t, send, int, const void *, size_t, int);
	pause_();
	if (cap(snd, n)) n = capped(snd, n);
	return real(fd, b, n, flags);
}
ssize_t sendto(int fd, const void *b, size_t n, int flags, const struct sockaddr *a, socklen_t l)
{
	REAL(ssize_t, sendto, int, const void *, size_t, int, const struct sockaddr *, socklen_t);
	pause_();
	if (cap(snd, n)) n = capped(snd, n);
	return real(fd, b, n, flags, a, l);
}
ssize_t sendmsg(int fd, const struct msghdr *m, int flags)
{
	REAL(ssize_t, sendmsg, int, const struct msghdr *, int);
	pause_();
	if (snd > 0 && m->msg_iovlen >= 1 && !m->msg_control)
	{
		struct iovec v = m->msg_iov[0]; struct msghdr c = *m;
		size_t i = 0;
		while (!v.iov_len && ++i < m->msg_iovlen) v = m->msg_iov[i];
		if (v.iov_len) { v.iov_len = capped(snd, v.iov_len); c.msg_iov = &v; c.msg_iovlen = 1; return real(fd, &c, flags); }
	}
	return real(fd, m, flags);
}
ssize_t read(int fd, void *b, size_t n)
{
	REAL(ssize_t, read, int, void *, size_t);
	long f;
	if (*faultPath && kind(fd) == 0 && faultFor("read", &f))
	{
		if (f < 0) { errno = (int)-f; return -1; }
		if ((size_t)f < n) n = (size_t)f;
		return real(fd, b, n);
	}
	if (rcv > 0 || rd > 0 || delay > 0)
	{
		int k = kind(fd);
		if (k) pause_();
		if (k == 1 && cap(rcv, n)) n = capped(rcv, n);
		if (k == 2 && cap(rd, n)) n = capped(rd, n);
	}
	return real(fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n)
{
	REAL(ssize_t, write, int, const void *, size_t);
	long f;
	if (*faultPath && kind(fd) == 0 && faultFor("write", &f))
	{
		if (f < 0) { errno = (int)-f; return -1; }
		if ((size_t)f < n) n = (size_t)f;
		return real(fd, b, n);
	}
	if (snd > 0 || wr > 0 || delay > 0)
	{
		int k = kind(fd);
		if (k) pause_();
		if (k == 1 && cap(snd, n)) n = capped(snd, n);
		if (k == 2 && cap(wr, n)) n = capped(wr, n);
	}
	return real(fd, b, n);
}
ssize_t readv(int fd, const struct iovec *v, int c)
{
	REAL(ssize_t, readv, int, const struct iovec *, int);
	if ((rcv > 0 || rd > 0) && c > 0 && v[0].iov_len && kind(fd)) return read(fd, v[0].iov_base, v[0].iov_len);
	return real(fd, v, c);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
	REAL(ssize_t, writev, int, const struct iovec *, int);
	if ((snd > 0 || wr > 0) && kind(fd))
		for (int i = 0; i < c; i++) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
	return real(fd, v, c);
}
ssize_t sendfile(int out, int in, off_t *o, size_t n)
{
	REAL(ssize_t, sendfile, int, int, off_t *, size_t);
	long f;
	if (*faultPath && faultFor("write", &f))
	{
		if (f < 0) { errno = (int)-f; return -1; }
		if ((size_t)f < n) n = (size_t)f;
	}
	return real(out, in, o, n);
}
ssize_t copy_file_range(int in, off64_t *a, int out, off64_t *b, size_t n, unsigned flags)
{
	REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
	long f;
	if (*faultPath && faultFor("write", &f))
	{
		if (f < 0) { errno = (int)-f; return -1; }
		if ((size_t)f < n) n = (size_t)f;
	}
	return real(in, a, out, b, n, flags);
}

// --- waiting -----------------------------------------------------------------------------------------------------------
int poll(struct pollfd *p, nfds_t n, int t)
{
	REAL(int, poll, struct pollfd *, nfds_t, int);
	if (eintr > 0 && t != 0 && rnd(100) < (unsigned)eintr) { errno = EINTR; return -1; }
	return real(p, n, t);
}
int ppoll(struct pollfd *p, nfds_t n, const struct timespec *t, const sigset_t *s)
{
	REAL(int, ppoll, struct pollfd *, nfds_t, const struct timespec *, const sigset_t *);
	if (eintr > 0 && rnd(100) < (unsigned)eintr) { errno = EINTR; return -1; }
	return real(p, n, t, s);
}

// --- connections -------------------------------------------------------------------------------------------------------
static void note(const char *fmt, ...)
{
	if (!*logPath) return;
	char b[256];
	va_list a;
	va_start(a, fmt);
	int n = vsnprintf(b, sizeof(b), fmt, a);
	va_end(a);
	int e = errno;
	int (*ropen)(const char *, int, ...) = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open");
	ssize_t (*rwrite)(int, const void *, size_t) = (ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
	int f = ropen(logPath, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666);
	if (f >= 0) { (void)!rwrite(f, b, (size_t)n); close(f); }
	errno = e;
}
static long long now(void)
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return (long long)t.tv_sec * 1000 + t.tv_nsec / 1000000;
}
static void buffers(int fd)
{
	if (sbuf > 0) setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &sbuf, sizeof(sbuf));
	if (rbuf > 0) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rbuf, sizeof(rbuf));
}
int connect(int fd, const struct sockaddr *a, socklen_t l)
{
	REAL(int, connect, int, const struct sockaddr *, socklen_t);
	buffers(fd);
	if (a && a->sa_family == AF_INET && selves > 0)
	{
		static int (*rbind)(int, const struct sockaddr *, socklen_t);
		if (!rbind) rbind = (int (*)(int, const struct sockaddr *, socklen_t))dlsym(RTLD_NEXT, "bind");
		int one = 1;
		setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
		rbind(fd, a, l);
		selves--;
	}
	long long t = now();
	int r = real(fd, a, l);
	if (a && a->sa_family == AF_INET)
	{
		const struct sockaddr_in *i = (const struct sockaddr_in *)a;
		int e = errno;
		char b[32] = "?";
		inet_ntop(AF_INET, &i->sin_addr, b, sizeof(b));
		errno = e;
		note("C %lld %s %d %d\n", t, b, ntohs(i->sin_port), r == 0 ? 0 : errno);
	}
	return r;
}
int bind(int fd, const struct sockaddr *a, socklen_t l)
{
	REAL(int, bind, int, const struct sockaddr *, socklen_t);
	int r = real(fd, a, l);
	if (a && a->sa_family == AF_INET)
	{
		const struct sockaddr_in *i = (const struct sockaddr_in *)a;
		int e = errno;
		char b[32] = "?";
		inet_ntop(AF_INET, &i->sin_addr, b, sizeof(b));
		errno = e;
		note("B %s %d %d\n", b, ntohs(i->sin_port), r == 0 ? 0 : errno);
	}
	return r;
}
int listen(int fd, int n)
{
	REAL(int, listen, int, int);
	buffers(fd);
	return real(fd, n);
}
// Whether something is lacking at present, and its number.
static int lacking(const char *what, long *value)
{
	if (!*lackPath) return 0;
	char b[64] = "";
	size_t w = strlen(what);
	int e = errno;
	int (*ropen)(const char *, int, ...) = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open");
	ssize_t (*rread)(int, void *, size_t) = (ssize_t (*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
	int f = ropen(lackPath, O_RDONLY | O_CLOEXEC);
	if (f >= 0) { if (rread(f, b, sizeof(b) - 1) < 0) b[0] = 0; close(f); }
	errno = e;
	if (strncmp(b, what, w) || b[w] != ' ') return 0;
	*value = strtol(b + w + 1, NULL, 10);
	return 1;
}
pid_t fork(void)
{
	REAL(pid_t, fork, void);
	long p;
	if (lacking("fork", &p) && (p < 0 ? getpid() != -p : getpid() == p || p == 0) && unlink(lackPath) == 0) { errno = EAGAIN; return -1; }
	return real();
}
int accept(int fd, struct sockaddr *a, socklen_t *l)
{
	REAL(int, accept, int, struct sockaddr *, socklen_t *);
	long e;
	if (lacking("accept", &e)) { errno = (int)e; return -1; }
	int r = real(fd, a, l);
	if (r >= 0) buffers(r);
	return r;
}
int accept4(int fd, struct sockaddr *a, socklen_t *l, int flags)
{
	REAL(int, accept4, int, struct sockaddr *, socklen_t *, int);
	long e;
	if (lacking("accept", &e)) { errno = (int)e; return -1; }
	int r = real(fd, a, l, flags);
	if (r >= 0) buffers(r);
	return r;
}

int kill(pid_t p, int g)
{
	REAL(int, kill, pid_t, int);
	if (killDelay > 0 && g) { struct timespec t = { killDelay / 1000, (long)(killDelay % 1000) * 1000000 }; nanosleep(&t, NULL); }
	return real(p, g);
}
int symlinkat(const char *a, int d, const char *b)
{
	REAL(int, symlinkat, const char *, int, const char *);
	long f;
	if (faultFor("symlink", &f) && f) { errno = (int)f; return -1; }
	return real(a, d, b);
}

// --- files -------------------------------------------------------------------------------------------------------------
int link(const char *a, const char *b)
{
	REAL(int, link, const char *, const char *);
	long f;
	if (faultFor("link", &f) && f) { errno = (int)f; return -1; }
	return real(a, b);
}
int linkat(int d, const char *a, int e, const char *b, int flags)
{
	REAL(int, linkat, int, const char *, int, const char *, int);
	long f;
	if (faultFor("link", &f) && f) { errno = (int)f; return -1; }
	return real(d, a, e, b, flags);
}
int symlink(const char *a, const char *b)
{
	REAL(int, symlink, const char *, const char *);
	long f;
	for (int left = slink; left > 0; left -= 1000) { struct timespec t = { 0, (left < 1000 ? left : 1000) * 1000L }; nanosleep(&t, NULL); }
	if (faultFor("symlink", &f) && f) { errno = (int)f; return -1; }
	return real(a, b);
}
int open(const char *path, int flags, ...)
{
	REAL(int, open, const char *, int, ...);
	mode_t m = 0;
	if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
	long f;
	if (faultFor((flags & O_ACCMODE) == O_RDONLY ? "openr" : "openw", &f) && f) { errno = (int)f; return -1; }
	return real(path, flags, m);
}
int open64(const char *path, int flags, ...)
{
	mode_t m = 0;
	if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
	return open(path, flags | O_LARGEFILE, m);
}
