// C21: the schedulers against a model. Virtual time for the loop scheduler, real threads for the thread scheduler.
// usage: c21_sched loop|thread [framework options]
#include "vf.h"
#include "srtc/logging.h"
#include "srtc/scheduler.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <memory>
#include <mutex>
#include <thread>
#ifdef VF_VCLOCK
#include "vclock.h"
#endif
using namespace srtc;
using std::chrono::milliseconds;

#ifdef VF_VCLOCK
namespace {
// ---------------------------------------------------------------- loop scheduler and scopes, virtual time
struct Item { int64_t due = 0; int scope = -1; bool pending = false, cancelled = false, started = false; int ran = 0; std::weak_ptr<Task> h; uint64_t script = 0; int64_t ranAt = 0; };
struct World {
    vf::Rng& rng;
    std::shared_ptr<LoopScheduler> loop;
    std::vector<std::unique_ptr<ScopedScheduler>> scopes; // may be null after destruction
    std::vector<Item> items;
    int running = -1, depth = 0; int64_t lastDueRun = INT64_MIN; bool dead = false;
    std::set<int> inRun; // scopes whose task is being executed right now
    explicit World(vf::Rng& r) : rng(r) {}
    Scheduler& sched(int scope) { return scope < 0 ? static_cast<Scheduler&>(*loop) : *scopes[scope]; }

    void submit(int scope, bool fromTask) {
        if (items.size() > 400) return;
        int id = static_cast<int>(items.size());
        items.emplace_back();
        int64_t d = rng.pickOf({0ll, 0ll, 1ll, 5ll, 10ll, 50ll, 100ll, 1000ll}) + (rng.chance(0.5) ? rng.range(0, 40) : 0);
        if (fromTask && d == 0 && rng.chance(0.5)) d = 1;
        items[id].due = vclock::ns + d * 1000000; items[id].scope = scope; items[id].pending = true; items[id].script = rng.next();
        auto fn = [this, id] { run(id); };
        std::weak_ptr<Task> h = d == 0 && rng.chance(0.5) ? sched(scope).submit("harness", 1, fn) : sched(scope).submit(milliseconds(d), "harness", static_cast<int>(rng.range(1, 2000)), fn);
        items[id].h = h;
        VF_CHECK(!h.expired(), "handle", "a new task's handle is already expired");
        vf::count(fromTask ? "submitted_from_tasks" : "submitted");
    }
    void cancel(int id) {
        Item& it = items[id];
        if (id == running) return;
        auto h = it.h;
        if (rng.chance(0.5)) Task::cancelHelper(it.h);
        else if (auto t = it.h.lock()) { if (rng.chance(0.5)) t->cancel(); else { auto copy = t; sched(it.scope < 0 || !scopes[it.scope] ? -1 : it.scope).cancel(copy); } }
        if (it.pending) { it.pending = false; it.cancelled = true; vf::count("cancelled"); }
    }
    void update(int id) {
        Item& it = items[id];
        if (id == running) return;
        auto t = it.h.lock();
        if (!it.pending) return;
        VF_CHECK(t != nullptr, "handle-pending", "the handle of a pending task has expired");
        int64_t d = rng.pickOf({0ll, 3ll, 20ll, 200ll, 2000ll});
        it.h = t->update(milliseconds(d));
        it.due = vclock::ns + d * 1000000;
        VF_CHECK(!it.h.expired(), "update-handle", "updating a pending task returned no task");
        if (rng.chance(0.3)) t->cancel(); // the old handle is spent: must not touch the new task
        vf::count("updated");
    }
    void destroyScope(int s) {
        if (!scopes[s]) return;
        scopes[s].reset();
        for (auto& it : items) if (it.scope == s && it.pending) { it.pending = false; it.cancelled = true; }
        vf::count("scopes_destroyed");
    }
    int someScope() { std::vector<int> v{-1}; for (size_t i = 0; i < scopes.size(); i++) if (scopes[i]) v.push_back(static_cast<int>(i)); return rng.pick(v); }
    void act(bool fromTask) {
        switch (rng.below(8)) {
            case 0: case 1: case 2: submit(someScope(), fromTask); break;
            case 3: case 4: if (!items.empty()) cancel(static_cast<int>(rng.below(items.size()))); break;
            case 5: case 6: if (!items.empty()) update(static_cast<int>(rng.below(items.size()))); break;
            default:
                if (rng.chance(0.15)) destroyScope(static_cast<int>(rng.below(scopes.size())));
                else if (rng.chance(0.2)) { for (auto& s : scopes) if (!s) { s = std::make_unique<ScopedScheduler>(loop); break; } }
                break;
        }
    }
    void run(int id) {
        VF_CHECK(!dead, "run-after-destroy", "a task runs after its scheduler is gone");
        Item& it = items[id];
        VF_CHECK(!it.cancelled, "cancelled-ran", "a cancelled task runs");
        VF_CHECK(it.ran == 0 && it.pending, "ran-twice", "a task runs twice");
        VF_CHECK(vclock::ns >= it.due, "early", "a task due in " << (it.due - vclock::ns) << " ns runs now");
        VF_CHECK(inLoop, "outside-run", "a task runs outside the scheduler's run()");
        for (auto& o : items) VF_CHECK(!o.pending || o.due >= it.due, "order", "a task runs although one due " << (it.due - o.due) << " ns earlier has not");
        it.pending = false; it.ran++; it.ranAt = vclock::ns;
        running = id;
        vf::Rng r(it.script);
        if (r.chance(0.4)) for (int k = static_cast<int>(r.range(1, 3)); k > 0; k--) act(true);
        if (r.chance(0.05)) vclock::ns += r.range(0, 30) * 1000000; // a slow task
        running = -1;
        vf::count("ran");
    }
    bool inLoop = false;
};

void loopCase(vf::Rng& rng, int64_t) {
    vf::cpuLimit(20);
    vclock::setUs(rng.range(0, 1000000));
    World w(rng);
    w.loop = std::make_shared<LoopScheduler>();
    for (int i = 0; i < 3; i++) w.scopes.push_back(std::make_unique<ScopedScheduler>(w.loop));
    VF_CHECK(w.loop->getTimeoutMillis(77) == 77, "timeout-empty", "an empty scheduler does not return the default timeout");
    VF_CHECK(w.scopes[0]->getRealScheduler() == w.loop, "real", "getRealScheduler() of a scope");
    const bool exact = rng.chance(0.6);
    uint64_t h = 0;
    for (int step = 0; step < 150; step++) {
        for (int k = static_cast<int>(rng.below(4)); k > 0; k--) w.act(false);
        // what an event loop does: sleep for the timeout, then run
        int t = w.loop->getTimeoutMillis(-5);
        int64_t next = INT64_MAX;
        for (auto& it : w.items) if (it.pending) next = std::min(next, it.due);
        if (next == INT64_MAX) VF_CHECK(t == -5, "timeout-idle", "timeout " << t << " with nothing pending");
        else {
            int64_t left = std::max<int64_t>(0, next - vclock::ns);
            VF_CHECK(t >= 0 && t <= (left + 999999) / 1000000, "timeout-late", "timeout " << t << " ms with a task due in " << left << " ns");
            VF_CHECK(t >= left / 1000000, "timeout-early", "timeout " << t << " ms with the next task due in " << left << " ns");
        }
        if (exact && t >= 0) vclock::ns += std::min<int64_t>(t, 100) * 1000000 + rng.range(0, 900000);
        else vclock::ns += rng.range(0, 60) * 1000000 + rng.range(0, 999999);
        w.inLoop = true;
        w.loop->run();
        w.inLoop = false;
        for (auto& it : w.items) VF_CHECK(!it.pending || it.due > vclock::ns, "not-run", "a task overdue by " << (vclock::ns - it.due) << " ns has not run");
        for (auto& it : w.items) if (it.pending) VF_CHECK(!it.h.expired(), "handle-lost", "a pending task's handle has expired");
    }
    // everything that is still pending belongs to a live scheduler: some scopes go first, then the rest runs out
    if (rng.chance(0.5)) w.destroyScope(static_cast<int>(rng.below(3)));
    if (rng.chance(0.7)) {
        vclock::ns += 5000ll * 1000000;
        w.inLoop = true; w.loop->run(); w.inLoop = false;
        size_t n = 0;
        while (n++ < 500) { bool any = false; for (auto& it : w.items) any |= it.pending; if (!any) break; vclock::ns += 3000ll * 1000000; w.inLoop = true; w.loop->run(); w.inLoop = false; }
        for (auto& it : w.items) VF_CHECK(it.ran + (it.cancelled ? 1 : 0) == 1, "exactly-once", "a task ran " << it.ran << " times, cancelled " << it.cancelled);
    }
    for (auto& it : w.items) { uint64_t v[2] = {static_cast<uint64_t>(it.ranAt), static_cast<uint64_t>(it.cancelled)}; h = vf::hash64(v, 16, h); }
    for (size_t i = 0; i < w.scopes.size(); i++) w.destroyScope(static_cast<int>(i));
    w.loop.reset();
    w.dead = true;
    for (auto& it : w.items) if (auto t = it.h.lock()) { t->cancel(); (void)t->update(milliseconds(1)); }
    vf::sig(h);
}
} // namespace
int main(int argc, char** argv) {
    setLogLevel(SRTC_LOG_Z);
    return vf::runMain(argc, argv, "one situation = a distinct history of executed and cancelled tasks", {{"loop", 1, loopCase}});
}
#else
namespace {
// ---------------------------------------------------------------- thread scheduler, real threads
using Clock = std::chrono::steady_clock;
struct T {
    std::atomic<int> started{0}, finished{0};
    std::atomic<bool> gone{false};          // a cancel() of it has returned, or its scheduler is gone
    std::atomic<int64_t> due{0}, at{0};     // ns; not earlier than due
    std::atomic<bool> late{false};
    std::mutex m; std::weak_ptr<Task> h;    // guarded by m
    std::atomic<bool> updated{false};       // updating a task that is running schedules it again
};
int64_t nowNs() { return std::chrono::duration_cast<std::chrono::nanoseconds>(Clock::now().time_since_epoch()).count(); }

struct Fails {
    std::mutex m; std::string key, what;
    void add(const char* k, const std::string& w) { std::lock_guard<std::mutex> l(m); if (key.empty()) { key = k; what = w; } }
    void check() { std::lock_guard<std::mutex> l(m); if (!key.empty()) vf::fail(key, what); }
};

struct Shared {
    Fails f;
    std::mutex m; std::vector<std::shared_ptr<T>> all;
    std::atomic<int> order{0};
    std::atomic<int64_t> maxLate{0};
};

void body(Shared& s, const std::shared_ptr<T>& t, const std::function<void()>& inner) {
    if (t->gone.load() && !t->updated) s.f.add("cancelled-ran", "a task runs after cancel() returned or its scope was destroyed");
    if (t->started.fetch_add(1) >= (t->updated ? 2 : 1)) s.f.add("ran-twice", "a task runs twice");
    int64_t now = nowNs();
    if (now < t->due.load()) s.f.add("early", "a task runs " + std::to_string(t->due.load() - now) + " ns early");
    t->at = now;
    int64_t late = now - t->due.load(), old = s.maxLate.load();
    while (late > old && !s.maxLate.compare_exchange_weak(old, late)) {}
    if (inner) inner();
    if (t->gone.load() && !t->updated) s.f.add("cancel-returned-early", "cancel() or a scope's destructor returned while the task was running");
    t->finished.fetch_add(1);
}
std::shared_ptr<T> put(Shared& s, Scheduler& sch, int ms, std::function<void()> inner) {
    auto t = std::make_shared<T>();
    t->due = nowNs() + int64_t(ms) * 1000000;
    { std::lock_guard<std::mutex> l(s.m); s.all.push_back(t); }
    std::lock_guard<std::mutex> l(t->m);
    t->h = sch.submit(milliseconds(ms), "harness", 1, [&s, t, inner] { body(s, t, inner); });
    return t;
}

// several threads hammer one scheduler; every task is accounted for at the end
void hammer(vf::Rng& rng, int64_t) {
    vf::wallLimit(25);
    Shared s;
    const int nthreads = static_cast<int>(rng.range(2, 4)), ops = static_cast<int>(rng.range(20, 120));
    const bool scoped = rng.chance(0.6), doubleCancel = rng.chance(0.5), selfCancel = rng.chance(0.3);
    std::atomic<uint64_t> submitted{0}, cancelled{0}, updated{0};
    {
        auto sch = std::make_shared<ThreadScheduler>("vf");
        std::vector<std::thread> th;
        for (int k = 0; k < nthreads; k++) {
            uint64_t seed = rng.next();
            th.emplace_back([&, seed] {
                vf::Rng r(seed);
                auto scope = scoped ? std::make_unique<ScopedScheduler>(sch) : nullptr;
                std::vector<std::shared_ptr<T>> mine;
                auto drop = [&] { // a scope takes its pending tasks with it
                    scope.reset();
                    for (auto& t : mine) t->gone = true;
                    mine.clear();
                };
                for (int i = 0; i < ops; i++) {
                    Scheduler& target = scope ? static_cast<Scheduler&>(*scope) : *sch;
                    switch (r.below(6)) {
                        case 0: case 1: case 2: {
                            std::function<void()> inner;
                            uint64_t is = r.next();
                            if (r.chance(0.3)) inner = [&s, is] { std::this_thread::sleep_for(std::chrono::microseconds(is % 1500)); };
                            else if (r.chance(0.15)) inner = [&s, sp = sch.get(), is, &submitted] { vf::Rng q(is); auto t = put(s, *sp, static_cast<int>(q.range(0, 3)), nullptr); submitted++; (void)t; };
                            auto t = put(s, target, static_cast<int>(r.range(0, 6)), inner);
                            mine.push_back(t);
                            submitted++;
                            break;
                        }
                        case 3: {
                            if (mine.empty()) break;
                            auto t = r.pick(mine);
                            std::shared_ptr<Task> h;
                            { std::lock_guard<std::mutex> l(t->m); h = t->h.lock(); }
                            if (doubleCancel && h) { // two threads cancel the same task at the same time
                                auto h2 = h;
                                std::thread o([&] { h2->cancel(); });
                                h->cancel();
                                o.join();
                            } else if (h) h->cancel();
                            t->gone = true;
                            cancelled++;
                            break;
                        }
                        case 4: {
                            if (mine.empty()) break;
                            auto t = r.pick(mine);
                            std::lock_guard<std::mutex> l(t->m);
                            if (t->gone.load() || t->updated) break;
                            auto h = t->h.lock();
                            if (!h) break;
                            // the deadline moves back only, so that running before or after the update are both on time
                            t->updated = true;
                            auto n = h->update(milliseconds(8));
                            t->h = n;
                            updated++;
                            break;
                        }
                        default:
                            if (scope && r.chance(0.3)) { drop(); scope = std::make_unique<ScopedScheduler>(sch); }
                            else std::this_thread::sleep_for(std::chrono::microseconds(r.range(0, 800)));
                            break;
                    }
                }
                if (scope) drop();
            });
        }
        for (auto& t : th) t.join();
        // the rest runs out, unless the scheduler goes first
        if (rng.chance(0.5)) {
            int64_t end = nowNs() + 20000000000ll;
            while (nowNs() < end) {
                bool open = false;
                { std::lock_guard<std::mutex> l(s.m); for (auto& t : s.all) if (!t->gone && t->finished == 0) open = true; }
                if (!open) break;
                std::this_thread::sleep_for(milliseconds(1));
            }
            std::lock_guard<std::mutex> l(s.m);
            for (auto& t : s.all) if (!t->gone && t->finished == 0) s.f.add("never-ran", "a task that nobody cancelled has not run");
        }
        (void)selfCancel;
        sch.reset();
    }
    { std::lock_guard<std::mutex> l(s.m); for (auto& t : s.all) { if (t->started != t->finished) s.f.add("cut-short", "the scheduler is gone while its task is still running"); t->gone = true; } }
    std::this_thread::sleep_for(milliseconds(rng.chance(0.2) ? 10 : 0));
    s.f.check();
    for (auto& t : s.all) if (!t->updated) VF_CHECK(t->started <= 1, "ran-twice", "a task ran " << t->started << " times");
    uint64_t n = 0; for (auto& t : s.all) n += t->started;
    vf::count("submitted", submitted); vf::count("cancelled", cancelled); vf::count("updated", updated); vf::count("ran", n);
    vf::sig(n * 1000003 + cancelled * 1009 + submitted);
}

// due-time order and promptness, on an otherwise idle scheduler
void ordered(vf::Rng& rng, int64_t) {
    vf::wallLimit(25);
    auto sch = std::make_shared<ThreadScheduler>("vf");
    struct R { int64_t due; int64_t at; };
    std::mutex m; std::vector<int> ranOrder; std::vector<R> rec(40, R{0, 0});
    std::vector<int> delay(40);
    const int64_t t0 = nowNs();
    for (int i = 0; i < 40; i++) {
        delay[i] = static_cast<int>(rng.range(5, 60));
        rec[i].due = nowNs() + delay[i] * 1000000ll;
        sch->submit(milliseconds(delay[i]), "harness", 1, [&, i] { std::lock_guard<std::mutex> l(m); ranOrder.push_back(i); rec[i].at = nowNs(); });
    }
    const int64_t submitSpan = nowNs() - t0;
    for (int k = 0; k < 5000; k++) { { std::lock_guard<std::mutex> l(m); if (ranOrder.size() == 40) break; } std::this_thread::sleep_for(milliseconds(1)); }
    std::lock_guard<std::mutex> l(m);
    VF_CHECK(ranOrder.size() == 40, "never-ran", "only " << ranOrder.size() << " of 40 tasks ran within five seconds");
    for (size_t k = 1; k < ranOrder.size(); k++) {
        int a = ranOrder[k - 1], b = ranOrder[k];
        VF_CHECK(rec[a].due <= rec[b].due + submitSpan, "order", "a task ran before one due " << (rec[a].due - rec[b].due) << " ns earlier");
    }
    for (auto& r : rec) VF_CHECK(r.at >= r.due, "early", "a task ran " << r.due - r.at << " ns early");
    vf::count("ordered_tasks", 40);
    uint64_t h = 0; for (int x : ranOrder) h = h * 41 + x;
    vf::sig(h);
}

// cancelling, rescheduling, ending a scope or the scheduler from inside a task
void inside(vf::Rng& rng, int64_t) {
    vf::wallLimit(30);
    Shared s;
    auto sch = std::make_shared<ThreadScheduler>("vf");
    std::atomic<int> done{0};
    const int what = static_cast<int>(rng.below(4));
    vf::note("inside " + std::to_string(what));
    auto scope = std::make_shared<std::unique_ptr<ScopedScheduler>>(std::make_unique<ScopedScheduler>(sch));
    if (what == 0) {
        // a task cancels itself
        auto h = std::make_shared<std::weak_ptr<Task>>(); std::mutex hm;
        { std::lock_guard<std::mutex> l(hm); *h = sch->submit(milliseconds(2), "harness", 1, [&, h] { std::lock_guard<std::mutex> l(hm); Task::cancelHelper(*h); done++; }); }
        for (int k = 0; k < 5000 && !done; k++) std::this_thread::sleep_for(milliseconds(1));
        VF_CHECK(done == 1, "self-cancel", "a task that cancels itself never finishes");
    } else if (what == 1) {
        // a task ends the scope it belongs to
        std::shared_ptr<T> other;
        other = put(s, **scope, 30, nullptr);
        (*scope)->submit(milliseconds(2), "harness", 1, [&, scope] { scope->reset(); other->gone = true; done++; });
        for (int k = 0; k < 5000 && !done; k++) std::this_thread::sleep_for(milliseconds(1));
        VF_CHECK(done == 1, "scope-inside", "a task that ends its own scope never finishes");
        std::this_thread::sleep_for(milliseconds(40));
        VF_CHECK(other->started == 0, "cancelled-ran", "a task of a destroyed scope ran");
    } else if (what == 2) {
        // a task submits to its scope while that scope is being destroyed by another thread
        std::atomic<bool> in{false};
        (*scope)->submit(milliseconds(1), "harness", 1, [&, scope] { in = true; std::this_thread::sleep_for(milliseconds(3)); (*scope)->submit(milliseconds(1), "harness", 1, [&] { done++; }); });
        while (!in) std::this_thread::yield();
        std::unique_ptr<ScopedScheduler> dying;
        ScopedScheduler* raw = scope->get();
        raw->~ScopedScheduler(); // in place: the task still reaches the object it was submitted to
        int at = done;
        std::this_thread::sleep_for(milliseconds(10));
        int later = done;
        new (raw) ScopedScheduler(sch);
        VF_CHECK(at == later, "run-after-scope", "a task submitted while its scope was being destroyed ran afterwards");
    } else {
        // the last reference to the scheduler goes away inside a task
        auto holder = std::make_shared<std::shared_ptr<ThreadScheduler>>();
        *holder = std::make_shared<ThreadScheduler>("vf2");
        auto* raw = holder->get();
        std::shared_ptr<T> other = put(s, *raw, 30, nullptr);
        auto fin = std::make_shared<std::atomic<int>>(0);
        raw->submit(milliseconds(2), "harness", 1, [holder, fin, other] { holder->reset(); other->gone = true; (*fin)++; });
        for (int k = 0; k < 5000 && !*fin; k++) std::this_thread::sleep_for(milliseconds(1));
        VF_CHECK(*fin == 1, "scheduler-inside", "a task that releases its scheduler never finishes");
        std::this_thread::sleep_for(milliseconds(40));
        VF_CHECK(other->started == 0, "cancelled-ran", "a task of a destroyed scheduler ran");
    }
    scope->reset();
    sch.reset();
    s.f.check();
    vf::count("inside_" + std::to_string(what));
    vf::sig(rng.next() % 50 + what * 1000);
}
} // namespace
int main(int argc, char** argv) {
    setLogLevel(SRTC_LOG_Z);
    return vf::runMain(argc, argv, "one situation = a distinct outcome of an interleaving", {{"hammer", 6, hammer}, {"ordered", 1, ordered}, {"inside", 3, inside}});
}
#endif
