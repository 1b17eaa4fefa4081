// storm PORT MS: keeps connections waiting to be accepted on a port, until nothing listens there any more (or MS have passed).
// (It never waits for the one that listens: connections that aren't established at once are given up.)
#include <arpa/inet.h>
#include <errno.h>
#include <netinet/in.h>
#include <stdlib.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>

static double now(void)
{
	struct timespec t;

	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec * 1e3 + t.tv_nsec / 1e6;
}

int main(int argc, char **argv)
{
	double end = now() + atof(argv[2]);
	struct sockaddr_in a = { 0 };
	struct linger l = { 1, 0 };
	int refused = 0;

	a.sin_family = AF_INET;
	a.sin_port = htons(atoi(argv[1]));
	a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);

	while (now() < end && refused < 100)
	{
		int s = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
		int error = 0;
		socklen_t size = sizeof(error);

		setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof(l)); // (no sockets that linger)

		if (connect(s, (struct sockaddr *)&a, sizeof(a)) != 0)
			error = errno;

		if (error == EINPROGRESS)
			getsockopt(s, SOL_SOCKET, SO_ERROR, &error, &size);

		refused = error == ECONNREFUSED ? refused + 1 : 0;
		close(s);
	}

	return 0;
}
