// The viewer at the other end of the listener's socket, in memory: what it received, when it acknowledges, and what goes wrong.
#pragma once
#include <arpa/inet.h>
#include <cerrno>
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <netdb.h>
#include <netinet/in.h>
#include <string>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <vector>
namespace V {
struct Conn { std::string host; int port = 0; std::string data; bool open = true, gone = false; int acked = 0; };
struct Net {
  std::vector<Conn> conns; std::map<int, int> fds;          // descriptor -> connection, -1 before it is connected
  std::map<int, char> faults; int ops = 0; std::string log;  // what goes wrong at the nth call of send or recv
  bool refuse = false, nosock = false, blocking = false; std::string bad, lastHost; int hosts = 0;
};
extern Net net;
extern void (*yield)();                                     // a scheduling point, if there is a scheduler
}
