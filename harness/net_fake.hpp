// The socket interface of an operating system whose every failure, delay and split is a choice of the harness.
// Every descriptor has an owner; using or closing a descriptor of somebody else is a violation.
#pragma once
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace net {

struct Fd {
    int owner = 0, domain = 0, type = 0;
    bool bound = false, listening = false, connected = false, accepted = false;
    std::string local, peer;             // "ip:port"
    int64_t rcvtimeo = -1;               // ns
    bool eof = false, reset = false, shut = false;
    std::string in;                      // stream: bytes that have arrived
    std::deque<std::pair<std::string, std::string>> dgrams;  // (from, data)
    std::deque<std::string> incoming;    // connections waiting on a listening socket
    std::string out;                     // stream: bytes written
};
struct Call { std::string name; int fd; std::string addr, data; long res; };

struct State {
    std::map<int, Fd> fds;
    std::vector<Call> log;               // bind, connect, accept, send, recv ... in order
    int64_t fail_takes = 0;              // virtual time a failing receive takes: whoever polls does not stop time
    std::function<int(const char* call, int fd)> fault;          // errno of a failure, or 0
    std::function<std::size_t(const char* call, std::size_t n)> split;  // how much of n a stream call transfers (1..n)
    std::function<void(int fd, const std::string& addr, const std::string& data)> on_send;
};
extern State st;
extern int current;                      // who is calling: 0 nobody, 1.. objects, -1 the bystander
extern bool on;                          // the interface is the fake one
extern std::function<void(const std::string& key, const std::string& desc)> violation;

void reset();
int open_file(int owner);                // a descriptor of somebody else
void close_file(int fd);
bool is_open(int fd);
int count(int owner);
extern int first;           // the lowest descriptor handed out                    // open descriptors of an owner
void dgram(int fd, const std::string& from, const std::string& data);
void bytes(int fd, const std::string& data);
void hangup(int fd, bool reset);
void connection(int fd, const std::string& from);
std::vector<Call> calls(const std::string& name);
}  // namespace net
