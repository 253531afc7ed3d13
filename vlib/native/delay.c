/* delays connect() of datagram sockets: widens the time between the bind and the connect of the socket of a session */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/socket.h>
#include <unistd.h>

int connect(int s, const struct sockaddr *a, socklen_t l) {
    static int (*real)(int, const struct sockaddr *, socklen_t);
    if (!real)
        real = dlsym(RTLD_NEXT, "connect");
    const char *d = getenv("CONNECT_DELAY_US");
    int t = 0;
    socklen_t n = sizeof t;
    if (d && !getsockopt(s, SOL_SOCKET, SO_TYPE, &t, &n) && t == SOCK_DGRAM)
        usleep(atoi(d));
    return real(s, a, l);
}
