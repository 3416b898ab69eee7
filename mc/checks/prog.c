/* What the commands of B03 run.
 * prog OUT ERR MODE END [ENVVAR...]
 * OUT, ERR: none, text, bin, big.  MODE: plain, cat (copies its input), env (prints variables),
 * hang, hold (a child keeps the pipes), deaf (ignores what can be ignored).
 * END: exit status, or sN for signal N. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <sys/resource.h>

static void put(int fd, const char *what)
{
	static char buf[150000];
	size_t n, done = 0;

	if (!strcmp(what, "text")) {
		n = sprintf(buf, "fd %d: caf\303\251\n  second line \n\n", fd);
	} else if (!strcmp(what, "bin")) {
		n = 6;
		memcpy(buf, "\377\000\376\n\200 ", 6);
	} else if (!strcmp(what, "big")) {
		n = sizeof buf;
		for (size_t i = 0; i < n; i++)
			buf[i] = i % 97 == 96 ? '\n' : 'a' + (i + fd) % 26;
	} else
		return;
	while (done < n) {
		/* in turns, so that a reader of only one of them blocks us */
		ssize_t r = write(fd, buf + done, n - done > 3000 ? 3000 : n - done);
		if (r <= 0)
			_exit(99);
		done += r;
	}
}

int main(int argc, char **argv)
{
	struct rlimit none = {0, 0};
	const char *mode = argv[3];

	setrlimit(RLIMIT_CORE, &none);
	if (!strcmp(mode, "deaf")) {
		for (int s = 1; s < 32; s++)
			signal(s, SIG_IGN);
	}
	put(1, argv[1]);
	put(2, argv[2]);
	if (!strcmp(mode, "cat")) {
		char b[4096];
		ssize_t n;
		while ((n = read(0, b, sizeof b)) > 0)
			if (write(1, b, n) != n)
				_exit(98);
	} else if (!strcmp(mode, "env")) {
		for (int i = 5; i < argc; i++)
			printf("%s=%s\n", argv[i], getenv(argv[i]) ? getenv(argv[i]) : "(unset)");
		char d[4096];
		printf("%s\n", getcwd(d, sizeof d));
		fflush(stdout);
	} else if (strcmp(mode, "plain")) {
		if (!strcmp(mode, "hold") && fork() == 0)
			fork();
		/* not for ever, should it get away */
		sleep(60);
	}
	if (argv[4][0] == 's') {
		int s = atoi(argv[4] + 1);
		signal(s, SIG_DFL);
		kill(getpid(), s);
		sleep(60);
	}
	return atoi(argv[4]);
}
