#include "simnet.h"
#include "../harness/vclock.h"
#include "../harness/vrandom.h"
#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <condition_variable>
#include <cstdarg>
#include <dlfcn.h>
#include <fcntl.h>
#include <mutex>
#include <openssl/ssl.h>
#include <queue>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

namespace sim {
namespace {
constexpr int kFirst = 0x40000000;
struct Ep {
    bool parked = false, granted = false, dead = false, free = false, seen = false, closed = false;
    int64_t deadline = 0, readySince = -1, wakeAt = 0, latency = 0, parkedAt = 0;
    std::map<int, void*> fds;
};
struct Sock { int family = 0; std::string dest; int ep = -1; std::deque<std::pair<Addr, Bytes>> rx; };
struct Ev { uint64_t count = 0; };
struct Item { int64_t t; uint64_t n; std::function<void()> fn; };
struct Later { bool operator()(const Item& a, const Item& b) const { return a.t != b.t ? a.t > b.t : a.n > b.n; } };

std::mutex mu;
std::condition_variable cv;
int nextFd = kFirst, lastEp = -1;
std::map<int, std::shared_ptr<Ep>> eps;
std::map<int, Sock> socks;
std::map<int, Ev> evs;
std::priority_queue<Item, std::vector<Item>, Later> events;
uint64_t eventNo = 0, wakes = 0;
std::map<std::string, Handler> handlers;
vf::Rng rng(1);
std::vector<Exported> exports;

struct ThreadMark {
    std::shared_ptr<Ep> ep;
    ~ThreadMark() {
        if (!ep) return;
        std::lock_guard l(mu);
        ep->dead = true;
        cv.notify_all();
    }
};
thread_local ThreadMark mark;

bool ready(const Ep& e) {
    for (auto& [fd, u] : e.fds) {
        if (auto s = socks.find(fd); s != socks.end() && !s->second.rx.empty()) return true;
        if (auto v = evs.find(fd); v != evs.end() && v->second.count) return true;
    }
    return false;
}
} // namespace

Addr Addr::make(const std::string& ip, uint16_t port) {
    Addr a;
    auto* v4 = reinterpret_cast<sockaddr_in*>(&a.ss);
    auto* v6 = reinterpret_cast<sockaddr_in6*>(&a.ss);
    if (inet_pton(AF_INET, ip.c_str(), &v4->sin_addr) == 1) { v4->sin_family = AF_INET; v4->sin_port = htons(port); }
    else if (inet_pton(AF_INET6, ip.c_str(), &v6->sin6_addr) == 1) { v6->sin6_family = AF_INET6; v6->sin6_port = htons(port); }
    else vf::harnessError("bad address " + ip);
    a.key = ip + ":" + std::to_string(port);
    return a;
}
std::string Addr::ip() const {
    char b[64];
    if (ss.ss_family == AF_INET) inet_ntop(AF_INET, &reinterpret_cast<const sockaddr_in*>(&ss)->sin_addr, b, sizeof b);
    else inet_ntop(AF_INET6, &reinterpret_cast<const sockaddr_in6*>(&ss)->sin6_addr, b, sizeof b);
    return b;
}
uint16_t Addr::port() const { return ntohs(ss.ss_family == AF_INET ? reinterpret_cast<const sockaddr_in*>(&ss)->sin_port : reinterpret_cast<const sockaddr_in6*>(&ss)->sin6_port); }
Addr Addr::from(const sockaddr* sa) {
    Addr a;
    memcpy(&a.ss, sa, sa->sa_family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6));
    a.key = a.ip() + ":" + std::to_string(a.port());
    return a;
}

int64_t now() { return vclock::us(); }
uint64_t wakeups() { return wakes; }
std::vector<Exported>& exported() { return exports; }
void reset(uint64_t seed) {
    std::lock_guard l(mu);
    for (auto& [fd, e] : eps) if (e->seen && !e->dead) vf::harnessError("a network thread is still alive");
    // leaked handles of a failed case are forgotten; numbers are never used again
    eps.clear(); socks.clear(); evs.clear(); handlers.clear(); exports.clear();
    events = {};
    eventNo = 0; wakes = 0; lastEp = -1;
    rng = vf::Rng(seed);
    vrand::seed(seed);
    vclock::setUs(0);
}
void at(int64_t t, std::function<void()> fn) { events.push({std::max(t, now()), eventNo++, std::move(fn)}); }
int lastEpoll() { return lastEp; }
bool workerAlive(int ep) { std::lock_guard l(mu); auto i = eps.find(ep); return i != eps.end() && i->second->seen && !i->second->dead; }
void slowThread(int ep, int64_t m) { std::lock_guard l(mu); if (eps.count(ep)) eps[ep]->latency = m; }
void awaitParked(int ep) {
    std::unique_lock l(mu);
    auto e = eps.at(ep);
    cv.wait(l, [&] { return e->parked || e->dead; });
}
void release(int ep) {
    std::lock_guard l(mu);
    auto i = eps.find(ep);
    if (i == eps.end()) return;
    i->second->free = true;
    cv.notify_all();
}
void listen(const Addr& a, Handler h) { handlers[a.key] = std::move(h); }
void unlisten(const Addr& a) { handlers.erase(a.key); }
void arrive(int fd, const Addr& from, const Bytes& data) {
    std::lock_guard l(mu);
    auto s = socks.find(fd);
    if (s == socks.end()) return;
    if (s->second.rx.size() < 4096) s->second.rx.emplace_back(from, data);
}
int socketTo(int ep, const Addr& dest) {
    std::lock_guard l(mu);
    int best = -1;
    for (auto& [fd, s] : socks) if (s.dest == dest.key && s.ep == ep) best = fd;
    return best;
}
uint64_t fdsAlive() { std::lock_guard l(mu); return socks.size(); }

void runUntil(int64_t t) {
    uint64_t same = 0;
    int64_t sameAt = -1;
    while (true) {
        int64_t best = INT64_MAX;
        std::shared_ptr<Ep> who;
        {
            std::lock_guard l(mu);
            for (auto& [fd, e] : eps) {
                if (!e->parked || e->dead) continue;
                int64_t w;
                if (ready(*e)) {
                    if (e->readySince < 0) { e->readySince = now(); e->wakeAt = std::max(now(), e->parkedAt) + 10 + static_cast<int64_t>(rng.below(40)) + (e->latency ? static_cast<int64_t>(rng.below(static_cast<uint64_t>(e->latency))) : 0); }
                    w = std::min(e->wakeAt, std::max(e->deadline, now()));
                } else { e->readySince = -1; w = e->deadline; }
                if (w < now()) w = now();
                if (w < best) { best = w; who = e; }
            }
        }
        const int64_t ev = events.empty() ? INT64_MAX : events.top().t;
        if (std::min(best, ev) > t) { if (t > now()) vclock::setUs(t); return; }
        if (ev <= best) {
            auto fn = events.top().fn;
            if (ev > now()) vclock::setUs(ev);
            events.pop();
            fn();
        } else {
            if (best > now()) vclock::setUs(best);
            if (sameAt == now()) { if (++same > 20000) vf::fail("busy-loop", "the network thread spins without time passing"); } else { sameAt = now(); same = 0; }
            wakes++;
            std::unique_lock l(mu);
            who->parked = false;
            who->granted = true;
            who->readySince = -1;
            cv.notify_all();
            cv.wait(l, [&] { return who->parked || who->dead; });
        }
    }
}
bool runWhile(const std::function<bool()>& cond, int64_t limit) {
    const int64_t end = now() + limit;
    while (cond()) {
        if (now() >= end) return false;
        runUntil(std::min(end, now() + 5 * ms));
    }
    return true;
}

void Path::send(const Bytes& b) {
    sent++;
    if (!up || (drop && drop(b)) || rng.chance(loss)) { lost++; return; }
    int copies = rng.chance(dup) ? 2 : 1;
    if (copies > 1) duped++;
    for (int i = 0; i < copies; i++) {
        Bytes c = b;
        if (!c.empty() && rng.chance(corrupt)) {
            corrupted++;
            switch (rng.below(4)) {
            case 0: c.resize(rng.below(c.size())); break;
            case 1: c.push_back(static_cast<uint8_t>(rng.next())); break;
            default: c[rng.below(c.size())] ^= static_cast<uint8_t>(1u << rng.below(8));
            }
            if (c == b) { lost++; continue; }
        }
        int64_t t = now() + delay + (jitter ? static_cast<int64_t>(rng.below(static_cast<uint64_t>(jitter))) : 0);
        if (fifo) { t = std::max(t, last); last = t; }
        at(t, [c, d = deliver, w = std::weak_ptr<int>(life)] { if (!w.expired()) d(c); });
    }
}
} // namespace sim

using namespace sim;
extern "C" {
int epoll_create(int) noexcept {
    std::lock_guard l(mu);
    lastEp = nextFd++;
    eps[lastEp] = std::make_shared<Ep>();
    return lastEp;
}
int eventfd(unsigned c, int) noexcept {
    std::lock_guard l(mu);
    int fd = nextFd++;
    evs[fd].count = c;
    return fd;
}
int eventfd_write(int fd, eventfd_t v) {
    std::lock_guard l(mu);
    auto i = evs.find(fd);
    if (i == evs.end()) { errno = EBADF; return -1; }
    i->second.count += v;
    cv.notify_all();
    return 0;
}
int eventfd_read(int fd, eventfd_t* v) {
    std::lock_guard l(mu);
    auto i = evs.find(fd);
    if (i == evs.end()) { errno = EBADF; return -1; }
    if (!i->second.count) { errno = EAGAIN; return -1; }
    *v = i->second.count;
    i->second.count = 0;
    return 0;
}
int epoll_ctl(int ep, int op, int fd, struct epoll_event* ev) noexcept {
    std::lock_guard l(mu);
    auto i = eps.find(ep);
    if (i == eps.end()) { errno = EBADF; return -1; }
    if (op == EPOLL_CTL_DEL) i->second->fds.erase(fd);
    else {
        i->second->fds[fd] = ev->data.ptr;
        if (auto s = socks.find(fd); s != socks.end()) s->second.ep = ep;
    }
    return 0;
}
int epoll_wait(int epfd, struct epoll_event* out, int max, int timeout) {
    HarnessScope hs;
    onWorker = true;
    std::unique_lock l(mu);
    auto i = eps.find(epfd);
    if (i == eps.end()) { errno = EBADF; return -1; }
    auto e = i->second;
    if (!mark.ep) { mark.ep = e; e->seen = true; }
    e->parkedAt = now();
    e->deadline = timeout < 0 ? INT64_MAX / 2 : now() + (timeout == 0 ? 50 : timeout * 1000ll + 40);
    if (timeout > 0 && e->latency) e->deadline += static_cast<int64_t>(rng.below(static_cast<uint64_t>(e->latency)));
    e->readySince = -1;
    e->parked = true;
    cv.notify_all();
    cv.wait(l, [&] { return e->granted || (e->free && ready(*e)); });
    e->granted = false;
    e->parked = false;
    int n = 0;
    for (auto& [fd, u] : e->fds) {
        if (n >= max) break;
        bool r = false;
        if (auto s = socks.find(fd); s != socks.end()) r = !s->second.rx.empty();
        else if (auto v = evs.find(fd); v != evs.end()) r = v->second.count != 0;
        if (r) { out[n].events = EPOLLIN; out[n].data.ptr = u; n++; }
    }
    return n;
}
int socket(int family, int type, int) noexcept {
    if ((type & 0xF) != SOCK_DGRAM) { errno = EPROTONOSUPPORT; return -1; }
    std::lock_guard l(mu);
    int fd = nextFd++;
    socks[fd].family = family;
    return fd;
}
ssize_t sendto(int fd, const void* p, size_t n, int, const struct sockaddr* to, socklen_t) {
    HarnessScope hs;
    Handler h;
    {
        std::lock_guard l(mu);
        auto i = socks.find(fd);
        if (i == socks.end()) { errno = EBADF; return -1; }
        if (to->sa_family != i->second.family) { errno = EAFNOSUPPORT; return -1; }
        Addr a = Addr::from(to);
        i->second.dest = a.key;
        auto k = handlers.find(a.key);
        if (k != handlers.end()) h = k->second;
    }
    if (n > 65507) { errno = EMSGSIZE; return -1; }
    if (h) h(fd, Bytes(static_cast<const uint8_t*>(p), static_cast<const uint8_t*>(p) + n));
    return static_cast<ssize_t>(n);
}
ssize_t recvfrom(int fd, void* p, size_t n, int, struct sockaddr* from, socklen_t* fl) {
    HarnessScope hs;
    std::lock_guard l(mu);
    auto i = socks.find(fd);
    if (i == socks.end()) { errno = EBADF; return -1; }
    if (i->second.rx.empty()) { errno = EAGAIN; return -1; }
    auto [a, b] = std::move(i->second.rx.front());
    i->second.rx.pop_front();
    size_t k = std::min(n, b.size());
    if (k) memcpy(p, b.data(), k);
    memcpy(from, &a.ss, std::min<size_t>(*fl, a.len()));
    *fl = a.len();
    return static_cast<ssize_t>(k);
}
int close(int fd) {
    if (fd < kFirst) return static_cast<int>(syscall(SYS_close, fd));
    std::lock_guard l(mu);
    for (auto& [n, e] : eps) e->fds.erase(fd);
    eps.erase(fd);
    bool ok = socks.erase(fd) + evs.erase(fd) >= 0;
    return ok ? 0 : -1;
}
int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    void* arg = va_arg(ap, void*);
    va_end(ap);
    if (fd >= kFirst) return cmd == F_GETFL ? O_RDWR : 0;
    return static_cast<int>(syscall(SYS_fcntl, fd, cmd, arg));
}
int gettimeofday(struct timeval* tv, void*) noexcept {
    int64_t v = vclock::kSystemBase + vclock::ns;
    tv->tv_sec = v / 1000000000ll;
    tv->tv_usec = v % 1000000000ll / 1000;
    return 0;
}
time_t time(time_t* t) noexcept {
    time_t v = (vclock::kSystemBase + vclock::ns) / 1000000000ll;
    if (t) *t = v;
    return v;
}
int SSL_export_keying_material(SSL* s, unsigned char* out, size_t olen, const char* label, size_t llen, const unsigned char* context, size_t contextlen, int use_context) {
    static auto real = reinterpret_cast<decltype(&SSL_export_keying_material)>(dlsym(RTLD_NEXT, "SSL_export_keying_material"));
    int r = real(s, out, olen, label, llen, context, contextlen, use_context);
    HarnessScope hs;
    if (r == 1) {
        auto* p = SSL_get_selected_srtp_profile(s);
        std::lock_guard l(mu);
        exports.push_back({s, SSL_is_server(s) != 0, Bytes(out, out + olen), p ? p->name : "", now()});
    }
    return r;
}
}
