// Deterministic world for whole PeerConnections: virtual time, virtual sockets, epoll and event handles, one runnable thread at a time.
// The real network threads of the connections run the real code; they are parked inside epoll_wait and resumed by the director
// (the harness's main thread), so an execution depends on the seed only.
#pragma once
#include "../harness/vf.h"
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <netinet/in.h>
#include <string>
#include <vector>

namespace sim {
using Bytes = std::vector<uint8_t>;
constexpr int64_t ms = 1000, sec = 1000000; // microseconds

struct Addr {
    sockaddr_storage ss = {};
    std::string key; // "1.2.3.4:5"
    static Addr make(const std::string& ip, uint16_t port);
    static Addr from(const sockaddr* sa);
    socklen_t len() const { return ss.ss_family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6); }
    std::string ip() const;
    uint16_t port() const;
};

int64_t now();                                        // microseconds since the start of the case
void reset(uint64_t seed);                            // forgets everything; no connection may be alive
void at(int64_t t, std::function<void()> fn);         // runs fn on the director at time t
inline void after(int64_t d, std::function<void()> fn) { at(now() + d, std::move(fn)); }
void runUntil(int64_t t);
inline void runFor(int64_t d) { runUntil(now() + d); }
bool runWhile(const std::function<bool()>& cond, int64_t limit); // true: cond became false before now()+limit
uint64_t wakeups();

// The epoll handle made last: the connection constructed last
int lastEpoll();
bool workerAlive(int ep);      // a network thread has parked there and did not end
void awaitParked(int ep);      // after setAnswer()
void release(int ep);          // before close(): the network thread may return from epoll_wait by itself
void slowThread(int ep, int64_t maxLatency); // wake-ups come late by up to that

// Where datagrams sent to an address go
using Handler = std::function<void(int fd, const Bytes& data)>;
void listen(const Addr& a, Handler h);
void unlisten(const Addr& a);
// A datagram from `from` arrives on the socket now
void arrive(int fd, const Addr& from, const Bytes& data);
int socketTo(int ep, const Addr& dest); // socket of that connection that has sent to dest, -1 if none
uint64_t fdsAlive();

// Code of the harness running on a network thread (what it allocates there is not the library's)
inline thread_local bool onWorker = false;
inline thread_local int harnessDepth = 0;
inline thread_local int libraryDepth = 0; // a call into the library from the director
struct LibraryScope { LibraryScope() { libraryDepth++; } ~LibraryScope() { libraryDepth--; } };
struct HarnessScope { HarnessScope() { harnessDepth++; } ~HarnessScope() { harnessDepth--; } };

// Path with faults: every datagram passed to send() comes out of deliver zero or more times later
struct Path {
    vf::Rng rng{1};
    std::function<void(const Bytes&)> deliver;
    int64_t delay = 10 * ms, jitter = 0;  // delay + [0, jitter): more jitter than spacing reorders
    double loss = 0, dup = 0, corrupt = 0;
    bool fifo = false;                    // keep the order whatever the jitter
    bool up = true;
    std::function<bool(const Bytes&)> drop; // additional verdict
    int64_t last = 0;
    uint64_t sent = 0, lost = 0, duped = 0, corrupted = 0;
    std::shared_ptr<int> life = std::make_shared<int>(0);
    void send(const Bytes& b);
};

// Keys exported by DTLS in this process, newest last
struct Exported { void* ssl; bool server; Bytes material; std::string profile; int64_t when; };
std::vector<Exported>& exported();
} // namespace sim
