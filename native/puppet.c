// The command run by the sessions under test. It does nothing by itself: it connects to the driver (unix socket given as
// argv[1]), reports how it was started, and then performs the driver's orders, reporting what it observes.
//
// Orders (one per line)                       Reports
//   r N     read N more bytes of stdin          R n ok      n bytes read, ok=1 if they are the expected ones
//                                               E           end-of-file seen            r        order completed
//   w F N O write N bytes of pattern from offset O to fd F   D F         order completed             X F errno total
//   c F     close fd F (after pending writes)   C F
//   h F     start a holder that keeps fd F      (the holder connects by itself: hello with role "holder")
//   x C     exit with code C                    k S         die from signal S
//   T       restore SIGTERM's default           S n         signal n received
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>

extern char **environ;

static int ctl = -1;
static const unsigned char *pat;
static size_t patLen;
static uint64_t seed;
static pthread_mutex_t outLock = PTHREAD_MUTEX_INITIALIZER;

static void sendAll(const char *p, size_t n)
{
	while (n)
	{
		ssize_t w = send(ctl, p, n, MSG_NOSIGNAL);
		if (w < 0 && errno == EINTR) continue;
		if (w <= 0) _exit(99);
		p += w; n -= (size_t)w;
	}
}

static void report(const char *fmt, ...)
{
	char b[128];
	va_list a;
	va_start(a, fmt);
	int n = vsnprintf(b, sizeof(b), fmt, a);
	va_end(a);
	pthread_mutex_lock(&outLock);
	sendAll(b, (size_t)n);
	pthread_mutex_unlock(&outLock);
}

static void onSignal(int s)
{
	int e = errno;
	char b[16] = "S 00\n";
	b[2] = (char)('0' + s / 10); b[3] = (char)('0' + s % 10);
	(void)!send(ctl, b, 5, MSG_NOSIGNAL);
	errno = e;
}

// Byte at offset i of stream k (0 stdin, 1 stdout, 2 stderr)
static inline size_t at(int k, uint64_t i) { return (size_t)((i + seed * 7919u + (uint64_t)k * 350003u) % patLen); }

struct op { char kind; uint64_t n, at; struct op *next; };
struct worker { int fd; uint64_t total; struct op *head, *tail; pthread_mutex_t m; pthread_cond_t c; int broken; };
static struct worker workers[3];

static void push(struct worker *w, char kind, uint64_t n, uint64_t at)
{
	struct op *o = calloc(1, sizeof(*o));
	o->kind = kind; o->n = n; o->at = at;
	pthread_mutex_lock(&w->m);
	if (w->tail) w->tail->next = o; else w->head = o;
	w->tail = o;
	pthread_cond_signal(&w->c);
	pthread_mutex_unlock(&w->m);
}

static void *work(void *v)
{
	struct worker *w = v;
	static __thread unsigned char buf[1 << 17];
	for (;;)
	{
		pthread_mutex_lock(&w->m);
		while (!w->head) pthread_cond_wait(&w->c, &w->m);
		struct op *o = w->head;
		w->head = o->next;
		if (!w->head) w->tail = NULL;
		pthread_mutex_unlock(&w->m);

		if (o->kind == 'c') { close(w->fd); report("C %d\n", w->fd); }
		else if (o->kind == 'r')
		{
			uint64_t left = o->n;
			while (left)
			{
				ssize_t r = read(w->fd, buf, left < sizeof(buf) ? left : sizeof(buf));
				if (r < 0 && errno == EINTR) continue;
				if (r < 0) { report("Y %d\n", errno); break; }
				if (r == 0) { report("E\n"); break; }
				int ok = 1;
				for (ssize_t i = 0; i < r;)
				{
					size_t a = at(0, w->total + (uint64_t)i), m = patLen - a;
					if (m > (size_t)(r - i)) m = (size_t)(r - i);
					if (memcmp(buf + i, pat + a, m)) ok = 0;
					i += (ssize_t)m;
				}
				w->total += (uint64_t)r;
				left -= (uint64_t)r;
				report("R %zd %d\n", r, ok);
			}
			report("r\n");
		}
		else
		{
			uint64_t left = o->n, done = 0;
			int err = 0;
			w->total = o->at;
			while (left && !err)
			{
				size_t a = at(w->fd, w->total), m = patLen - a;
				if (m > left) m = (size_t)left;
				if (m > sizeof(buf)) m = sizeof(buf);
				ssize_t r = write(w->fd, pat + a, m);
				if (r < 0 && errno == EINTR) continue;
				if (r < 0) { err = errno; break; }
				w->total += (uint64_t)r; left -= (uint64_t)r; done += (uint64_t)r;
			}
			if (err) report("X %d %d %llu\n", w->fd, err, (unsigned long long)w->total);
			else report("D %d\n", w->fd);
		}
		free(o);
	}
	return NULL;
}

static char *hexBuf; static size_t hexLen, hexCap;
static void add(const char *s, size_t n)
{
	if (hexLen + n + 1 > hexCap) { hexCap = (hexLen + n + 1) * 2; hexBuf = realloc(hexBuf, hexCap); }
	memcpy(hexBuf + hexLen, s, n); hexLen += n;
}
static void addHex(const char *s)
{
	char t[2];
	static const char d[] = "0123456789abcdef";
	for (; *s; s++) { t[0] = d[(unsigned char)*s >> 4]; t[1] = d[*s & 15]; add(t, 2); }
}

static void fail(const char *m) { dprintf(2, "puppet: %s: %d\n", m, errno); _exit(98); }

static char *argv0[1];

int main(int argc, char **argv)
{
	sigset_t all, old;
	struct sigaction sa;
	unsigned long ign = 0, blk = 0;

	sigfillset(&all);
	sigprocmask(SIG_SETMASK, &all, &old);
	for (int s = 1; s < 32; s++)
	{
		if (sigaction(s, NULL, &sa) == 0 && sa.sa_handler == SIG_IGN) ign |= 1ul << s;
		if (sigismember(&old, s) == 1) blk |= 1ul << s;
	}

	// Descriptors inherited by this process
	char fds[4096] = "";
	int holder = argc > 2 && !strcmp(argv[2], "--holder--");
	for (int f = 0; f < 1024; f++)
		if (fcntl(f, F_GETFD) != -1) { char b[16]; snprintf(b, sizeof(b), "%s%d", *fds ? "," : "", f); strcat(fds, b); }

	// The control path is the first argument that looks like one
	int at = 1;
	while (at < argc && !strstr(argv[at], "/ctl/c")) at++;
	if (at >= argc) fail("no control path");
	argv0[0] = argv[at];
	struct sockaddr_un un = { .sun_family = AF_UNIX };
	if (strlen(argv[at]) >= sizeof(un.sun_path)) fail("path");
	strcpy(un.sun_path, argv[at]);
	int c = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
	ctl = fcntl(c, F_DUPFD_CLOEXEC, 600);
	close(c);
	while (connect(ctl, (struct sockaddr *)&un, sizeof(un)) != 0) if (errno != EINTR && errno != EAGAIN) fail("connect");

	char cwd[8192];
	if (!getcwd(cwd, sizeof(cwd))) strcpy(cwd, "?");
	char pre[8192];
	struct { pid_t p, pp; } id = { getpid(), getppid() };
	snprintf(pre, sizeof(pre), "H %s %d %d %lx %lx %s ", holder ? "holder" : "command", id.p, id.pp, ign, blk, *fds ? fds : "-");
	add(pre, strlen(pre));
	add("d", 1); addHex(cwd); add(" a", 2);
	for (int i = 0; i < argc; i++) { if (i) add(",", 1); addHex(argv[i]); }
	add(" e", 2);
	for (char **e = environ; *e; e++) { if (e != environ) add(",", 1); addHex(*e); }
	add("\n", 1);

	// pattern file beside the control socket: <dir>/pattern
	char pf[256];
	strcpy(pf, argv[at]);
	char *sl = strrchr(pf, '/');
	strcpy(sl + 1, "pattern");
	int p = open(pf, O_RDONLY | O_CLOEXEC);
	struct stat st;
	if (p < 0 || fstat(p, &st) != 0) fail("pattern");
	patLen = (size_t)st.st_size;
	pat = mmap(NULL, patLen, PROT_READ, MAP_PRIVATE, p, 0);
	close(p);
	sendAll(hexBuf, hexLen);

	for (int i = 0; i < 3; i++)
	{
		pthread_t t;
		pthread_attr_t at_;
		workers[i].fd = i;
		pthread_mutex_init(&workers[i].m, NULL);
		pthread_cond_init(&workers[i].c, NULL);
		pthread_attr_init(&at_);
		pthread_attr_setstacksize(&at_, 512 * 1024);
		if (pthread_create(&t, &at_, work, &workers[i])) fail("thread");
	}

	memset(&sa, 0, sizeof(sa));
	sa.sa_handler = onSignal;
	sa.sa_flags = SA_RESTART;
	for (int s = 1; s < 32; s++)
		if (s != SIGKILL && s != SIGSTOP && s != SIGCHLD && s != SIGPIPE && s != SIGSEGV && s != SIGBUS && s != SIGILL && s != SIGFPE && s != SIGABRT && s != SIGCONT && s != SIGTSTP && s != SIGTTIN && s != SIGTTOU)
			sigaction(s, &sa, NULL);
	signal(SIGPIPE, SIG_IGN);
	signal(SIGCHLD, SIG_IGN);
	sigemptyset(&all);
	pthread_sigmask(SIG_SETMASK, &all, NULL);

	static char line[4096];
	size_t len = 0;
	for (;;)
	{
		char *nl;
		while (!(nl = memchr(line, '\n', len)))
		{
			ssize_t r = recv(ctl, line + len, sizeof(line) - len, 0);
			if (r < 0 && errno == EINTR) continue;
			if (r <= 0) _exit(97); // the driver is gone
			len += (size_t)r;
		}
		*nl = 0;
		char *q = line + 1;
		unsigned long long a1 = strtoull(q, &q, 10), a2 = strtoull(q, &q, 10), a3 = strtoull(q, &q, 10);
		switch (*line)
		{
		case 's': seed = a1; break;
		case 'r': push(&workers[0], 'r', a1, 0); break;
		case 'w': push(&workers[a1], 'w', a2, a3); break;
		case 'c': push(&workers[a1], 'c', 0, 0); break;
		case 'x': _exit((int)a1);
		case 'k': signal((int)a1, SIG_DFL); kill(getpid(), (int)a1); for (;;) pause();
		case 'T': signal(SIGTERM, SIG_DFL); report("t\n"); break;
		case 'h':
			{
				pid_t h = fork();
				if (h == 0)
				{
					for (int f = 0; f < 3; f++) if (f != (int)a1) close(f);
					int n = open("/dev/null", O_RDWR);
					for (; n < 3 && n >= 0; n = open("/dev/null", O_RDWR)) ;
					close(n);
					execl("/proc/self/exe", "puppet", argv0[0], "--holder--", (char *)NULL);
					_exit(96);
				}
				report("h %d\n", (int)h);
				break;
			}
		}
		size_t used = (size_t)(nl + 1 - line);
		memmove(line, nl + 1, len - used);
		len -= used;
	}
}
