// Stand-in for lib/cmd/bup in the scratch build: with VT_ZYGOTE set, asks the
// fork server (which already has bup's modules imported) to run the command
// with our stdio, cwd, environment and umask; otherwise execs the real bup.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdint.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <limits.h>
#include <signal.h>
extern char **environ;

static int full_write(int fd, const char *p, size_t n)
{
    while (n) {
        ssize_t k = write(fd, p, n);
        if (k <= 0) return -1;
        p += k; n -= k;
    }
    return 0;
}

int main(int argc, char **argv)
{
    const char *z = getenv("VT_ZYGOTE");
    if (z && *z) {
        char *buf; size_t len;
        FILE *m = open_memstream(&buf, &len);
        char cwd[PATH_MAX];
        if (!getcwd(cwd, sizeof cwd)) goto real;
        mode_t u = umask(0); umask(u);
        uint32_t n = argc - 1, e = 0, um = u;
        for (char **p = environ; *p; p++) e++;
        fwrite(&um, 4, 1, m); fwrite(&n, 4, 1, m); fwrite(&e, 4, 1, m);
        fwrite(cwd, strlen(cwd) + 1, 1, m);
        for (int i = 1; i < argc; i++) fwrite(argv[i], strlen(argv[i]) + 1, 1, m);
        for (char **p = environ; *p; p++) fwrite(*p, strlen(*p) + 1, 1, m);
        fclose(m);
        int s = socket(AF_UNIX, SOCK_STREAM, 0);
        struct sockaddr_un a = { .sun_family = AF_UNIX };
        if (strlen(z) >= sizeof a.sun_path) goto real;
        strcpy(a.sun_path, z);
        if (connect(s, (struct sockaddr *)&a, sizeof a)) goto real;
        uint32_t l = len;
        struct iovec iov = { &l, 4 };
        union { char b[CMSG_SPACE(3 * sizeof(int))]; struct cmsghdr h; } c;
        memset(&c, 0, sizeof c);
        struct msghdr mh = { .msg_iov = &iov, .msg_iovlen = 1,
                             .msg_control = c.b, .msg_controllen = sizeof c.b };
        struct cmsghdr *h = CMSG_FIRSTHDR(&mh);
        h->cmsg_level = SOL_SOCKET; h->cmsg_type = SCM_RIGHTS;
        h->cmsg_len = CMSG_LEN(3 * sizeof(int));
        int fds[3] = {0, 1, 2};
        memcpy(CMSG_DATA(h), fds, sizeof fds);
        if (sendmsg(s, &mh, 0) != 4) goto real;
        if (full_write(s, buf, len)) _exit(97);
        close(0); close(1);
        int32_t rc = 97;
        char *p = (char *)&rc; size_t got = 0;
        while (got < 4) {
            ssize_t k = read(s, p + got, 4 - got);
            if (k <= 0) _exit(97);
            got += k;
        }
        if (rc < 0) { kill(getpid(), -rc); _exit(128 - rc); }
        _exit(rc);
    }
real:;
    char self[PATH_MAX + 16];
    ssize_t k = readlink("/proc/self/exe", self, PATH_MAX);
    if (k < 0) return 96;
    strcpy(self + k, ".real");
    argv[0] = self;
    execv(self, argv);
    perror("vbup: exec");
    return 96;
}
