/* Fork server: runs the real command line front end of skull (skull/cli.c's
 * main, renamed by -Dmain=skull_cli_main) in a forked child per request, or
 * execs another program (kind "x").
 *
 * Request : u32 length, then NUL separated fields:
 *   kind ("s"/"x") cwd timeout_ms nenv env0 ... nargs arg0 arg1 ...
 *   (an env field is NAME=VALUE; COLOR is unset otherwise)
 * Response: i32 status, i32 timed_out, u32 nout, out bytes, u32 nerr, err bytes
 *   status = exit status, or 1000 + signal number
 */
#define _GNU_SOURCE
#undef main
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

int skull_cli_main(int argc, char *argv[]);

static void rd(void *p, size_t n) {
	char *c = p;
	while (n) {
		ssize_t r = read(0, c, n);
		if (r <= 0) exit(0);
		c += r; n -= (size_t)r;
	}
}
static void wr(const void *p, size_t n) {
	const char *c = p;
	while (n) {
		ssize_t r = write(9, c, n);
		if (r <= 0) exit(0);
		c += r; n -= (size_t)r;
	}
}
static void send_file(int fd) {
	off_t n = lseek(fd, 0, SEEK_END);
	if (n > (1 << 20)) n = 1 << 20;
	uint32_t len = (uint32_t)n;
	wr(&len, 4);
	char *b = malloc(len + 1);
	if (pread(fd, b, len, 0) != (ssize_t)len) memset(b, 0, len);
	wr(b, len);
	free(b);
}

int main(void) {
	dup2(1, 9);
	dup2(2, 1);
	signal(SIGPIPE, SIG_IGN);
	for (;;) {
		uint32_t len;
		rd(&len, 4);
		char *buf = malloc(len + 1);
		rd(buf, len);
		buf[len] = 0;
		char *p = buf;
#define NEXT() ({ char *q_ = p; p += strlen(p) + 1; q_; })
		char *kind = NEXT(), *cwd = NEXT();
		int timeout = atoi(NEXT());
		int ne = atoi(NEXT());
		char **ev = calloc((size_t)ne + 1, sizeof *ev);
		for (int i = 0; i < ne; i++) ev[i] = NEXT();
		int n = atoi(NEXT());
		char **argv = calloc((size_t)n + 2, sizeof *argv);
		for (int i = 0; i < n; i++) argv[i] = NEXT();

		int fo = memfd_create("o", 0), fe = memfd_create("e", 0);
		pid_t pid = fork();
		if (pid == 0) {
			setpgid(0, 0);
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			signal(SIGPIPE, SIG_DFL);
			int z = open("/dev/null", O_RDONLY);
			dup2(z, 0); dup2(fo, 1); dup2(fe, 2);
			close(z); close(fo); close(fe); close(9);
			struct rlimit core = {0, 0}, fs = {64 << 20, 64 << 20};
			setrlimit(RLIMIT_CORE, &core);
			setrlimit(RLIMIT_FSIZE, &fs);
			if (chdir(cwd)) _exit(120);
			unsetenv("COLOR");
			for (int i = 0; i < ne; i++) putenv(ev[i]);
			if (*kind == 'x') {
				execv(argv[0], argv);
				_exit(121);
			}
			exit(skull_cli_main(n, argv));
		}
		setpgid(pid, pid);
		int status = 0, timed = 0;
		int pfd = (int)syscall(SYS_pidfd_open, pid, 0);
		struct pollfd pf = { .fd = pfd, .events = POLLIN };
		int pr;
		do pr = poll(&pf, 1, timeout); while (pr < 0 && errno == EINTR);
		if (pr == 0) { timed = 1; kill(-pid, SIGKILL); kill(pid, SIGKILL); }
		while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
		kill(-pid, SIGKILL);
		close(pfd);
		int32_t st = WIFEXITED(status) ? WEXITSTATUS(status) : 1000 + WTERMSIG(status);
		int32_t tm = timed;
		wr(&st, 4); wr(&tm, 4);
		send_file(fo); send_file(fe);
		close(fo); close(fe);
		free(argv); free(ev); free(buf);
	}
}
