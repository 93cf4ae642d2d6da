#include "luvnet.hh"
#define NS __attribute__((no_sanitize("thread")))
namespace V { Net net; void (*yield)() = nullptr;
static int messages(Conn const &c) { int n = 0; for (char x : c.data) n += x == 4; return n; }
static Conn *at(int fd) { auto i = net.fds.find(fd); return i == net.fds.end() || i->second < 0 ? nullptr : &net.conns[i->second]; }
static char fault() { auto i = net.faults.find(net.ops++); return i == net.faults.end() ? 0 : i->second; }
static ssize_t take(int fd, const void *b, size_t n, int flags) {
  if (yield) yield();
  Conn *c = at(fd); if (!c) { errno = ENOTCONN; return -1; }
  char f = fault();
  if (f == 'i') { errno = EINTR; return -1; }
  if (f == 'r') { c->gone = true; errno = ECONNRESET; return -1; }
  if (f == 'x') c->gone = true;
  if (c->gone) { errno = EPIPE; if (!(flags & MSG_NOSIGNAL)) raise(SIGPIPE); return -1; }
  if (net.blocking && n && (c->data.empty() || c->data.back() == 4) && c->acked < messages(*c) && net.bad.empty()) net.bad = "a message is sent although the one before was not acknowledged yet";
  size_t k = f == '1' && n ? 1 : f == 'h' && n ? (n + 1) / 2 : n;
  c->data.append((const char *)b, k); return (ssize_t)k;
}
static ssize_t give(int fd, void *b, size_t n) {
  if (yield) yield();
  Conn *c = at(fd); if (!c) { errno = ENOTCONN; return -1; }
  char f = fault();
  if (f == 'i') { errno = EINTR; return -1; }
  if (f == 'r') { c->gone = true; errno = ECONNRESET; return -1; }
  if (f == 'x') c->gone = true;
  if (c->gone) return 0;
  if (!net.blocking || c->acked >= messages(*c)) { if (net.bad.empty()) net.bad = net.blocking ? "an acknowledgement is awaited although none is outstanding" : "an acknowledgement is awaited although the viewer does not block"; c->gone = true; return 0; }
  if (!n) return 0; ++c->acked; *(char *)b = 4; return 1;
}
}
using V::net;
extern "C" {
NS int socket(int d, int type, int p) noexcept { if (d != AF_INET) return (int)syscall(SYS_socket, d, type, p); if (net.nosock) { errno = EMFILE; return -1; } int fd = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR); net.fds[fd] = -1; return fd; }
NS int setsockopt(int, int, int, const void *, socklen_t) noexcept { return 0; }
NS int connect(int fd, const struct sockaddr *a, socklen_t) { if (net.refuse) { errno = ECONNREFUSED; return -1; } auto i = (const sockaddr_in *)a; V::Conn c; c.host = inet_ntoa(i->sin_addr); c.port = ntohs(i->sin_port); net.fds[fd] = (int)net.conns.size(); net.conns.push_back(c); return 0; }
NS ssize_t send(int fd, const void *b, size_t n, int fl) { return V::take(fd, b, n, fl); }
NS ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *, socklen_t) { return V::take(fd, b, n, fl); }
NS ssize_t recv(int fd, void *b, size_t n, int) { return V::give(fd, b, n); }
NS ssize_t __recv_chk(int fd, void *b, size_t n, size_t, int) { return V::give(fd, b, n); }
NS ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return net.fds.count(fd) ? V::give(fd, b, n) : (ssize_t)syscall(SYS_read, fd, b, n); }
NS ssize_t write(int fd, const void *b, size_t n) { return net.fds.count(fd) ? V::take(fd, b, n, 0) : (ssize_t)syscall(SYS_write, fd, b, n); }
NS ssize_t read(int fd, void *b, size_t n) { return net.fds.count(fd) ? V::give(fd, b, n) : (ssize_t)syscall(SYS_read, fd, b, n); }
NS int close(int fd) { auto i = net.fds.find(fd); if (i != net.fds.end()) { if (i->second >= 0) net.conns[i->second].open = false; net.fds.erase(i); } return (int)syscall(SYS_close, fd); }
NS struct hostent *gethostbyname(const char *n) {
  static hostent h; static in_addr a; static char *l[2]; ++net.hosts; net.lastHost = n; std::string s = n; if (s == "localhost") s = "127.0.0.1";
  if (!inet_aton(s.c_str(), &a)) return nullptr;
  h.h_addrtype = AF_INET; h.h_length = 4; l[0] = (char *)&a; l[1] = nullptr; h.h_addr_list = l; return &h;
}
}
