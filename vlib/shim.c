/* Preloaded into the workers: makes the next sends of the library fail.

   shim_arm(n, e): the next n calls of send() on a connected datagram socket
   return -1 with errno e.  shim_fired() tells how many have.  The agents
   answer with sendto() to an address, which is left alone. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <sys/socket.h>
#include <sys/types.h>

static __thread int armed, fired, err;

void shim_arm(int n, int e) {
    armed = n;
    fired = 0;
    err = e;
}

int shim_fired(void) { return fired; }

static int refuse(int fd) {
    int t = 0;
    socklen_t l = sizeof t;
    struct sockaddr_storage a;
    socklen_t al = sizeof a;

    if (armed <= 0 || getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &l) || t != SOCK_DGRAM || getpeername(fd, (struct sockaddr *)&a, &al))
        return 0;
    if (a.ss_family != AF_INET && a.ss_family != AF_INET6)
        return 0;
    armed--;
    fired++;
    errno = err;
    return 1;
}

ssize_t send(int fd, const void *b, size_t n, int f) {
    static ssize_t (*real)(int, const void *, size_t, int);

    if (!real)
        real = (ssize_t(*)(int, const void *, size_t, int))dlsym(RTLD_NEXT, "send");
    return refuse(fd) ? -1 : real(fd, b, n, f);
}

ssize_t sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l) {
    static ssize_t (*real)(int, const void *, size_t, int, const struct sockaddr *, socklen_t);

    if (!real)
        real = (ssize_t(*)(int, const void *, size_t, int, const struct sockaddr *, socklen_t))dlsym(RTLD_NEXT, "sendto");
    return !a && refuse(fd) ? -1 : real(fd, b, n, f, a, l);
}

ssize_t sendmsg(int fd, const struct msghdr *m, int f) {
    static ssize_t (*real)(int, const struct msghdr *, int);

    if (!real)
        real = (ssize_t(*)(int, const struct msghdr *, int))dlsym(RTLD_NEXT, "sendmsg");
    return !m->msg_name && refuse(fd) ? -1 : real(fd, m, f);
}
