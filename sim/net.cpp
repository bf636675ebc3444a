// In-memory AF_UNIX/SOCK_STREAM kernel: descriptors per simulated node.
#include <cstdarg>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>

#include "core.h"

namespace sim {
constexpr int FDMAX = 256;        // per node limit (EMFILE)
constexpr int MAXSOCK = 2048;
constexpr size_t SNDBUF = 16384;

enum SK { S_FREE, S_NEW, S_LISTEN, S_CONN };
struct Sock {
  SK kind;
  int node;
  char name[108];
  bool bound;
  int backlog;
  int q[64]; int nq;              // pending server-side endpoints
  int peer;                       // S_CONN: index of the other endpoint or -1
  bool peerClosed, reset, nonblock, shutW;
  char *buf; size_t len, cap;     // bytes to be read by this endpoint
  int tap;                        // index+1 of the record of what it sends
};
struct Tap { char dest[108]; int node; char *buf; size_t len, cap; };
constexpr int MAXTAP = 4096;
static Tap *g_tap;
static int g_ntap;
static bool g_tapOn;
static Sock *S;
static int g_fd[MAXNODE][FDMAX];  // fd-3 -> socket index+1
static bool g_pipeIgn[MAXNODE];
static uint64_t g_netBytes;

void net_reset() {
  S = (Sock *)calloc(MAXSOCK, sizeof(Sock));
  memset(g_fd, 0, sizeof g_fd);
  g_tap = nullptr;
  g_ntap = 0;
  g_tapOn = false;
}
static int newSock() {
  for (int i = 0; i < MAXSOCK; i++)
    if (S[i].kind == S_FREE) {
      memset(&S[i], 0, sizeof(Sock));
      S[i].kind = S_NEW;
      S[i].node = cur->node;
      S[i].peer = -1;
      return i;
    }
  harness("socket table full");
}
static int newFd(int s) {
  for (int i = 0; i < FDMAX; i++)
    if (!g_fd[cur->node][i]) { g_fd[cur->node][i] = s + 1; return i + 3; }
  return -1;
}
static Sock *get(int fd, int *idx = nullptr) {
  if (fd < 3 || fd >= FDMAX + 3) return nullptr;
  int s = g_fd[cur->node][fd - 3];
  if (!s) return nullptr;
  if (idx) *idx = s - 1;
  return &S[s - 1];
}
static void closeSock(int i) {
  Sock &s = S[i];
  if (s.kind == S_CONN) {
    if (s.peer >= 0) {
      Sock &p = S[s.peer];
      p.peerClosed = true;
      if (s.len) p.reset = true;   // unread data at close: peer sees a reset
      p.peer = -1;
    }
  } else if (s.kind == S_LISTEN) {
    for (int k = 0; k < s.nq; k++) {
      S[s.q[k]].len = S[s.q[k]].len ? S[s.q[k]].len : 1;  // never accepted: reset
      closeSock(s.q[k]);
    }
  }
  free(s.buf);
  memset(&s, 0, sizeof s);
  wake(nullptr, W_NET);
}
void net_kill_node(int node) {
  for (int i = 0; i < FDMAX; i++)
    if (g_fd[node][i]) {
      int s = g_fd[node][i] - 1;
      g_fd[node][i] = 0;
      closeSock(s);
    }
}
static int err(int e) { errno = e; return -1; }
static bool on() { return cur && g_on && !cur->quiet; }
static Sock *findListener(const char *name, size_t n) {
  for (int i = 0; i < MAXSOCK; i++)
    if (S[i].kind == S_LISTEN && !memcmp(S[i].name, name, n)) return &S[i];
  return nullptr;
}
static void getName(const struct sockaddr *a, socklen_t l, char *out) {
  memset(out, 0, 108);
  auto *u = (const struct sockaddr_un *)a;
  size_t n = l > offsetof(struct sockaddr_un, sun_path) ? l - offsetof(struct sockaddr_un, sun_path) : 0;
  if (n > 108) n = 108;
  memcpy(out, u->sun_path, n);
}
static bool readable(Sock *s) {
  if (s->kind == S_LISTEN) return s->nq > 0 || s->shutW;
  if (s->kind == S_CONN) return s->len > 0 || s->peerClosed || s->reset;
  return true;
}
}  // namespace sim
using namespace sim;

extern "C" {
int sim_open_fds(int node) {
  int n = 0;
  for (int i = 0; i < FDMAX; i++) n += g_fd[node][i] != 0;
  return n;
}
// Records what is sent from now on, one record per connection
void sim_tap(int on) {
  g_tapOn = on;
  if (!g_tap) g_tap = (Tap *)calloc(MAXTAP, sizeof(Tap));
}
size_t sim_tap_count() { return (size_t)g_ntap; }
size_t sim_tap_get(size_t i, const char **dest, int *node, const char **bytes) {
  *dest = g_tap[i].dest + 1;
  *node = g_tap[i].node;
  *bytes = g_tap[i].buf;
  return g_tap[i].len;
}
uint64_t sim_net_bytes() { return g_netBytes; }
bool sim_listening(const char *name) {
  for (int i = 0; i < MAXSOCK; i++)
    if (S[i].kind == S_LISTEN && !strncmp(S[i].name + 1, name, 107)) return true;
  return false;
}

int socket(int, int type, int) noexcept {
  if (!on()) return err(ENOSYS);
  sp(SP_NET);
  if (uint32_t poor = g_poor[sim_node()]; (!g_softnet || poor) && faultDecide("socket-EMFILE", poor ? poor : 60, 1)) return err(EMFILE);
  int s = newSock();
  int fd = newFd(s);
  if (fd < 0) { S[s].kind = S_FREE; return err(EMFILE); }
  S[s].nonblock = type & SOCK_NONBLOCK;
  traceln("net socket() = %d", fd);
  return fd;
}
int setsockopt(int fd, int, int, const void *, socklen_t) noexcept {
  if (!on()) return err(ENOSYS);
  return get(fd) ? 0 : err(EBADF);
}
int getsockopt(int fd, int, int, void *v, socklen_t *l) noexcept {
  if (!on()) return err(ENOSYS);
  if (!get(fd)) return err(EBADF);
  if (*l >= 4) *(int *)v = 0;
  return 0;
}
int bind(int fd, const struct sockaddr *a, socklen_t l) noexcept {
  if (!on()) return err(ENOSYS);
  sp(SP_NET);
  Sock *s = get(fd);
  if (!s) return err(EBADF);
  char nm[108];
  getName(a, l, nm);
  for (int i = 0; i < MAXSOCK; i++)
    if (S[i].kind != S_FREE && S[i].bound && !memcmp(S[i].name, nm, 108)) return err(EADDRINUSE);
  memcpy(s->name, nm, 108);
  s->bound = true;
  traceln("net bind(%d, @%s)", fd, nm + 1);
  return 0;
}
int listen(int fd, int backlog) noexcept {
  if (!on()) return err(ENOSYS);
  sp(SP_NET);
  Sock *s = get(fd);
  if (!s) return err(EBADF);
  if (!s->bound) return err(EINVAL);
  s->kind = S_LISTEN;
  s->backlog = backlog > 60 ? 60 : backlog;
  wake(nullptr, W_NET);
  return 0;
}
int connect(int fd, const struct sockaddr *a, socklen_t l) {
  if (!on()) return err(ENOSYS);
  sp(SP_NET);
  int idx;
  Sock *s = get(fd, &idx);
  if (!s) return err(EBADF);
  if (s->kind == S_CONN) return err(EISCONN);
  char nm[108];
  getName(a, l, nm);
  if (faultDecide("connect-EINTR", 150, 1)) return err(EINTR);
  for (;;) {
    s = get(fd, &idx);
    if (!s) return err(EBADF);
    Sock *ls = findListener(nm, 108);
    if (!ls || ls->shutW) { traceln("net connect(@%s) refused", nm + 1); return err(ECONNREFUSED); }
    if (ls->nq > ls->backlog) {
      if (s->nonblock) return err(EAGAIN);
      sim_probe("net.backlog-full");
      block(W_NET, nullptr, ~0ull);
      continue;
    }
    int p = newSock();
    S[p].node = ls->node;
    S[p].kind = S_CONN;
    S[p].peer = idx;
    s->kind = S_CONN;
    s->peer = p;
    if (g_tapOn && g_ntap < MAXTAP) {
      memcpy(g_tap[g_ntap].dest, nm, 107);
      g_tap[g_ntap].node = s->node;
      s->tap = ++g_ntap;
    }
    ls->q[ls->nq++] = p;
    vcRelease(ls);
    traceln("net connect(%d, @%s) ok", fd, nm + 1);
    wake(nullptr, W_NET);
    return 0;
  }
}
int accept4(int fd, struct sockaddr *a, socklen_t *l, int) {
  if (!on()) return err(ENOSYS);
  sp(SP_NET);
  Sock *s = get(fd);
  if (!s) return err(EBADF);
  if (s->kind != S_LISTEN) return err(EINVAL);
  if (uint64_t v = faultDecide("accept-error", 40, 3)) {
    static const int es[] = {EINTR, ECONNABORTED, EMFILE};
    return err(es[v - 1]);
  }
  while (s->nq == 0) {
    if (s->shutW) return err(EINVAL);
    if (s->nonblock) return err(EAGAIN);
    block(W_NET, nullptr, ~0ull);
    s = get(fd);
    if (!s) return err(EBADF);
  }
  int nf = newFd(s->q[0]);
  if (nf < 0) return err(EMFILE);
  S[s->q[0]].node = cur->node;
  memmove(s->q, s->q + 1, sizeof(int) * --s->nq);
  if (a && l && *l >= 2) {
    // unnamed peer: only the family is reported
    checkAccess(a, 2, true, __builtin_return_address(0));
    a->sa_family = AF_UNIX;
    *l = 2;
  }
  vcAcquire(s);
  wake(nullptr, W_NET);
  traceln("net accept(%d) = %d", fd, nf);
  return nf;
}
int accept(int fd, struct sockaddr *a, socklen_t *l) { return accept4(fd, a, l, 0); }

static ssize_t doWrite(int fd, const void *b, size_t n, bool nosig) {
  sp(SP_NET);
  Sock *s = get(fd);
  if (!s) return err(EBADF);
  if (s->kind != S_CONN) return err(ENOTCONN);
  if (uint64_t v = faultDecide("write-error", 50, 3)) {
    static const int es[] = {EINTR, ENOBUFS, EINTR};
    return err(g_softnet ? EINTR : es[v - 1]);
  }
  size_t want = n;
  if (n > 1 && faultDecide("short-write", 12, 1)) want = 1 + sim_fault("short-write-len", 1, n - 1) % (n - 1);
  size_t done = 0;
  if (n) checkAccess(b, n, false, __builtin_return_address(0));
  for (;;) {
    s = get(fd);
    if (!s) return err(EBADF);
    if (s->peerClosed || s->peer < 0 || s->shutW) {
      if (done) break;
      if (!nosig && !g_pipeIgn[cur->node])
        fail("sigpipe-kill", "write", "a write to a connection its peer closed raised SIGPIPE: the process dies");
      return err(s->reset ? ECONNRESET : EPIPE);
    }
    Sock &p = S[s->peer];
    size_t room = SNDBUF > p.len ? SNDBUF - p.len : 0;
    size_t k = want - done < room ? want - done : room;
    if (k) {
      if (p.len + k > p.cap) {
        p.cap = (p.len + k) * 2;
        p.buf = (char *)realloc(p.buf, p.cap);
      }
      memcpy(p.buf + p.len, (const char *)b + done, k);
      if (s->tap) {
        Tap &t = g_tap[s->tap - 1];
        if (t.len + k > t.cap) t.buf = (char *)realloc(t.buf, t.cap = (t.len + k) * 2);
        memcpy(t.buf + t.len, (const char *)b + done, k);
        t.len += k;
      }
      p.len += k;
      done += k;
      g_netBytes += k;
      vcRelease((char *)&S[s->peer]);
      wake(nullptr, W_NET);
    }
    if (done >= want) break;
    if (s->nonblock) { if (done) break; return err(EAGAIN); }
    sim_probe("net.send-buffer-full");
    block(W_NET, nullptr, ~0ull);
  }
  traceln("net write(%d, %zu) = %zu", fd, n, done);
  sp(SP_NET);
  return (ssize_t)done;
}
static ssize_t doRead(int fd, void *b, size_t n, int flags) {
  sp(SP_NET);
  int idx;
  Sock *s = get(fd, &idx);
  if (!s) return err(EBADF);
  if (s->kind != S_CONN) return err(s->kind == S_LISTEN ? EINVAL : ENOTCONN);
  if (faultDecide("read-EINTR", 50, 1)) return err(EINTR);
  while (!s->len && !s->peerClosed && !s->reset) {
    if (s->nonblock || (flags & MSG_DONTWAIT)) return err(EAGAIN);
    block(W_NET, nullptr, ~0ull);
    s = get(fd, &idx);
    if (!s) return err(EBADF);
  }
  vcAcquire((char *)&S[idx]);
  if (!s->len) {
    if (s->reset) { s->reset = false; return err(ECONNRESET); }
    traceln("net read(%d) = 0", fd);
    return 0;
  }
  size_t k = s->len < n ? s->len : n;
  if (k > 1 && !(flags & MSG_WAITALL) && faultDecide("short-read", 8, 1)) k = 1 + sim_fault("short-read-len", 1, k - 1) % (k - 1);
  if (k) checkAccess(b, k, true, __builtin_return_address(0));
  memcpy(b, s->buf, k);
  if (!(flags & MSG_PEEK)) {
    memmove(s->buf, s->buf + k, s->len - k);
    s->len -= k;
  }
  wake(nullptr, W_NET);
  traceln("net read(%d, %zu) = %zu", fd, n, k);
  return (ssize_t)k;
}
ssize_t write(int fd, const void *b, size_t n) {
  if (!on() || fd < 3) return syscall(SYS_write, fd, b, n);
  return doWrite(fd, b, n, false);
}
ssize_t read(int fd, void *b, size_t n) {
  if (!on() || fd < 3) return syscall(SYS_read, fd, b, n);
  return doRead(fd, b, n, 0);
}
ssize_t send(int fd, const void *b, size_t n, int f) {
  if (!on()) return err(ENOSYS);
  return doWrite(fd, b, n, f & MSG_NOSIGNAL);
}
ssize_t recv(int fd, void *b, size_t n, int f) {
  if (!on()) return err(ENOSYS);
  if (f & MSG_WAITALL) {
    size_t d = 0;
    while (d < n) {
      ssize_t r = doRead(fd, (char *)b + d, n - d, 0);
      if (r < 0) return d ? (ssize_t)d : -1;
      if (r == 0) break;
      d += r;
    }
    return (ssize_t)d;
  }
  return doRead(fd, b, n, f);
}
ssize_t sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *, socklen_t) { return send(fd, b, n, f); }
ssize_t recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *, socklen_t *) { return recv(fd, b, n, f); }
ssize_t sendmsg(int fd, const struct msghdr *m, int f) {
  if (!on()) return err(ENOSYS);
  ssize_t d = 0;
  for (size_t i = 0; i < m->msg_iovlen; i++) {
    ssize_t r = doWrite(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, f & MSG_NOSIGNAL);
    if (r < 0) return d ? d : -1;
    d += r;
    if ((size_t)r < m->msg_iov[i].iov_len) break;
  }
  return d;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  if (!on() || fd < 3) return syscall(SYS_writev, fd, v, n);
  ssize_t d = 0;
  for (int i = 0; i < n; i++) {
    ssize_t r = doWrite(fd, v[i].iov_base, v[i].iov_len, false);
    if (r < 0) return d ? d : -1;
    d += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return d;
}
static ssize_t readIov(int fd, const struct iovec *v, size_t n, int f) {
  ssize_t d = 0;
  for (size_t i = 0; i < n; i++) {
    if (!v[i].iov_len) continue;
    ssize_t r = f & MSG_WAITALL ? recv(fd, v[i].iov_base, v[i].iov_len, f) : doRead(fd, v[i].iov_base, v[i].iov_len, d ? f | MSG_DONTWAIT : f);
    if (r < 0) return d ? d : -1;
    d += r;
    if ((size_t)r < v[i].iov_len) break;
  }
  return d;
}
ssize_t readv(int fd, const struct iovec *v, int n) {
  if (!on() || fd < 3) return syscall(SYS_readv, fd, v, n);
  return readIov(fd, v, (size_t)n, 0);
}
ssize_t recvmsg(int fd, struct msghdr *m, int f) {
  if (!on()) return err(ENOSYS);
  m->msg_controllen = 0;
  m->msg_flags = 0;
  m->msg_namelen = 0;
  return readIov(fd, m->msg_iov, m->msg_iovlen, f);
}
int shutdown(int fd, int how) noexcept {
  if (!on()) return err(ENOSYS);
  Sock *s = get(fd);
  if (!s) return err(EBADF);
  if (s->kind == S_CONN && how != SHUT_RD) {
    s->shutW = true;
    if (s->peer >= 0) S[s->peer].peerClosed = true;
  }
  if (s->kind == S_LISTEN && how != SHUT_WR) s->shutW = true;   // refuses from now on, its poll is ready
  wake(nullptr, W_NET);
  return 0;
}
int close(int fd) {
  if (!on() || fd < 3) return (int)syscall(SYS_close, fd);
  sp(SP_NET);
  int idx;
  if (!get(fd, &idx)) return err(EBADF);
  g_fd[cur->node][fd - 3] = 0;
  traceln("net close(%d)", fd);
  closeSock(idx);
  sp(SP_NET);
  return 0;
}
static bool pollReady(int fd, short ev, short *rev) {
  Sock *s = get(fd);
  *rev = 0;
  if (!s) { *rev = POLLNVAL; return true; }
  if ((ev & POLLIN) && readable(s)) *rev |= POLLIN;
  if ((ev & POLLOUT) && s->kind == S_CONN && (s->peer < 0 || S[s->peer].len < SNDBUF)) *rev |= POLLOUT;
  if ((s->kind == S_CONN && s->peerClosed) || (s->kind == S_LISTEN && s->shutW)) *rev |= POLLHUP;
  return *rev != 0;
}
int poll(struct pollfd *p, nfds_t n, int ms) {
  if (!on()) return err(ENOSYS);
  sp(SP_NET);
  uint64_t dl = ms < 0 ? ~0ull : g_now + (uint64_t)ms * 1000000ull;
  if (faultDecide("select-EINTR", 60, 1)) return err(EINTR);
  for (;;) {
    int c = 0;
    for (nfds_t i = 0; i < n; i++) c += p[i].fd >= 0 ? pollReady(p[i].fd, p[i].events, &p[i].revents) : (p[i].revents = 0);
    if (c) { sp(SP_NET); return c; }
    if (g_now >= dl) return 0;
    block(W_NET, nullptr, dl);
  }
}
int ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *) {
  return poll(p, n, ts ? (int)(ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000) : -1);
}
int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
  if (!on()) return err(ENOSYS);
  sp(SP_NET);
  uint64_t dl = tv ? g_now + (uint64_t)tv->tv_sec * 1000000000ull + (uint64_t)tv->tv_usec * 1000ull : ~0ull;
  fd_set r0, w0;
  FD_ZERO(&r0);
  FD_ZERO(&w0);
  if (r) r0 = *r;
  if (w) w0 = *w;
  if (faultDecide("select-EINTR", 60, 1)) return err(EINTR);
  for (;;) {
    int c = 0;
    fd_set ro, wo;
    FD_ZERO(&ro);
    FD_ZERO(&wo);
    for (int i = 0; i < n; i++) {
      short rev;
      if (r && FD_ISSET(i, &r0)) {
        if (!get(i)) return err(EBADF);
        if (readable(get(i))) { FD_SET(i, &ro); c++; }
      }
      if (w && FD_ISSET(i, &w0)) {
        if (!get(i)) return err(EBADF);
        if (pollReady(i, POLLOUT, &rev)) { FD_SET(i, &wo); c++; }
      }
    }
    if (c || g_now >= dl) {
      if (r) *r = ro;
      if (w) *w = wo;
      if (e) FD_ZERO(e);
      if (c) sp(SP_NET);
      return c;
    }
    block(W_NET, nullptr, dl);
  }
}
int pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *ts, const sigset_t *) {
  struct timeval tv{};
  if (ts) { tv.tv_sec = ts->tv_sec; tv.tv_usec = (ts->tv_nsec + 999) / 1000; }
  return select(n, r, w, e, ts ? &tv : nullptr);
}
int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  if (!on() || fd < 3) return (int)syscall(SYS_fcntl, fd, cmd, arg);
  Sock *s = get(fd);
  if (!s) return err(EBADF);
  if (cmd == F_GETFL) return s->nonblock ? O_NONBLOCK | O_RDWR : O_RDWR;
  if (cmd == F_SETFL) s->nonblock = arg & O_NONBLOCK;
  return 0;
}
sighandler_t signal(int sg, sighandler_t h) noexcept {
  if (on() && sg == SIGPIPE) g_pipeIgn[cur->node] = h == SIG_IGN || h != SIG_DFL;
  if (!on()) {
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = h;
    sigaction(sg, &sa, nullptr);
  }
  return SIG_DFL;
}
}
