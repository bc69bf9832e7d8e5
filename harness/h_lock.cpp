// C23 (locks) -- and the use of the locks by the thread-safe pools.
//
// The lock under test is compiled against a simulated mutex and condition variable.  Only one thread runs at a time; at
// every operation on a (simulated) mutex or condition variable it passes the baton back, and the next thread to run is
// drawn.  Which waiter a notification wakes is drawn, too, and so are spurious wake-ups.  Hence a case *is* a schedule: it
// is replayed exactly, and shrunk.
#include "engine.hpp"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <compare>
#include <concepts>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <filesystem>
#include <fstream>
#include <iomanip>
#include <list>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <pthread.h>
#include <random>
#include <regex>
#include <semaphore>
#include <shared_mutex>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>

namespace sim {

struct Thread
{
    std::binary_semaphore go{0};
    std::function<void()> program;
    enum { IDLE, READY, ON_MUTEX, ON_CV } state = IDLE;
    const void *on = nullptr; ///< the mutex or condition variable waited for
    bool notified = false;
    std::string where;        ///< the operation of the program
};

struct World
{
    std::vector<Thread*> threads;
    std::binary_semaphore back{0};
    Thread *current = nullptr; ///< none while the driver itself runs
    vp::Case *c = nullptr;
    bool spurious = false;
    unsigned long switches = 0;
};
World *W = nullptr;

/// Returns to the scheduler; comes back when scheduled again.
inline void pass() { Thread *t = W->current; World *w = W; w->back.release(); t->go.acquire(); }
/// A point where another thread may run.
inline void point() { if (W and W->current) pass(); }

struct Mutex
{
    bool held = false;
    Mutex() = default;
    Mutex(const Mutex&) = delete;
    void take() {
        while (held) {
            if (not W or not W->current) { std::cerr << "a mutex is locked twice\n"; abort(); }
            W->current->state = Thread::ON_MUTEX; W->current->on = this; pass();
        }
        held = true;
    }
    void lock() { point(); take(); }
    bool try_lock() { point(); if (held) return false; return held = true; }
    void give() {
        if (not held) { std::cerr << "a mutex is unlocked which is not locked\n"; abort(); }
        held = false;
        if (W) for (auto t : W->threads) if (t->state == Thread::ON_MUTEX and t->on == this) t->state = Thread::READY;
    }
    void unlock() { give(); point(); }
};

struct CV
{
    CV() = default;
    CV(const CV&) = delete;
    void notify_one() {
        point();
        if (not W) return;
        std::vector<Thread*> w;
        for (auto t : W->threads) if (t->state == Thread::ON_CV and t->on == this) w.push_back(t);
        if (w.empty()) return;
        w[W->c->draw(w.size() - 1)]->state = Thread::READY;
    }
    void notify_all() {
        point();
        if (W) for (auto t : W->threads) if (t->state == Thread::ON_CV and t->on == this) t->state = Thread::READY;
    }
    template<typename L> void wait(L &lock) {
        if (not W or not W->current) { std::cerr << "the only thread waits for a condition variable\n"; abort(); }
        auto m = lock.mutex();
        m->give();
        W->current->state = Thread::ON_CV; W->current->on = this; pass();
        m->take();
    }
    template<typename L, typename P> void wait(L &lock, P pred) { while (not pred()) wait(lock); }
};

/// The pool of threads; abandoned with the threads when they are stuck.
World *world = nullptr;

void *run_thread(void *arg) {
    auto [w, t] = *static_cast<std::pair<World*, Thread*>*>(arg);
    delete static_cast<std::pair<World*, Thread*>*>(arg);
    for (;;) {
        t->go.acquire();
        t->program();
        t->state = Thread::IDLE;
        w->back.release();
    }
    return nullptr;
}

Thread *new_thread(World *w) {
    auto t = new Thread();
    w->threads.push_back(t);
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 512 << 10); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
    pthread_t p;
    if (pthread_create(&p, &a, run_thread, new std::pair<World*, Thread*>(w, t))) { std::cerr << "cannot create a thread\n"; _exit(2); }
    pthread_attr_destroy(&a);
    return t;
}

/// Runs the programs in a drawn schedule until all are done or all wait.  Returns whether all are done.
struct Run
{
    vp::Case &c;
    explicit Run(vp::Case &c, bool spurious) : c(c) {
        if (not world) world = new World();
        W = world; W->c = &c; W->spurious = spurious; W->switches = 0; W->current = nullptr;
    }
    ~Run() { if (stuck()) world = nullptr; W = nullptr; }
    Thread *start(unsigned i, std::function<void()> p) {
        while (W->threads.size() <= i) new_thread(W);
        auto t = W->threads[i];
        t->program = std::move(p); t->state = Thread::READY; t->where.clear();
        return t;
    }
    bool stuck() const { for (auto t : world->threads) if (t->state != Thread::IDLE) return true; return false; }
    void step(Thread *t) {
        W->current = t; t->state = Thread::READY; ++W->switches;
        t->go.release();
        if (not W->back.try_acquire_for(std::chrono::seconds(60))) { std::cerr << "a thread does not come back in 60 s\n"; abort(); }
        W->current = nullptr;
    }
    /// Runs until no thread can run.
    void run(unsigned preempt) {
        Thread *last = nullptr;
        for (;;) {
            std::vector<Thread*> ready, sleeping;
            for (auto t : W->threads) if (t->state == Thread::READY) ready.push_back(t); else if (t->state == Thread::ON_CV) sleeping.push_back(t);
            if (ready.empty()) return;
            if (W->switches > 20000) c.fail("no progress", "the threads do not come to an end");
            if (W->spurious and not sleeping.empty() and c.chance(1, 24)) { last = c.pick(sleeping); c.label("spurious wake-up"); step(last); continue; }
            /* Mostly stay with the thread; preempt now and then. */
            if (last and std::find(ready.begin(), ready.end(), last) != ready.end() and not c.chance(preempt, 8)) { step(last); continue; }
            last = c.pick(ready); step(last);
        }
    }
};

}

namespace std {
using vp_sim_mutex = ::sim::Mutex;
using vp_sim_cv = ::sim::CV;
}
#define mutex vp_sim_mutex
#define recursive_mutex vp_sim_mutex
#define condition_variable vp_sim_cv
#define condition_variable_any vp_sim_cv
#define reader_writer_mutex sim_reader_writer_mutex
#define reader_writer_lock sim_reader_writer_lock
#include <mutable/util/reader_writer_lock.hpp>
#include <mutable/util/Pool.hpp>
#undef recursive_mutex
#undef condition_variable
#undef condition_variable_any
#undef reader_writer_mutex
#undef reader_writer_lock
using RWMutex = m::sim_reader_writer_mutex;
using RWLock = m::sim_reader_writer_lock;
using namespace vp;

namespace {

/*----- Schedules ----------------------------------------------------------------------------------------------------*/
/// Who holds the lock, from the return of the acquisition to the call of the release.
struct Holders
{
    unsigned readers = 0, writers = 0;
    std::string error;
    unsigned long grants = 0, failed_upgrades = 0, upgrades = 0, failed_tries = 0;
    void check() { if (error.empty() and (writers > 1 or (writers and readers))) error = VP_STR(writers << " writers and " << readers << " readers hold the lock"); ++grants; }
    void r() { ++readers; check(); }
    void w() { ++writers; check(); }
    void ur() { --readers; }
    void uw() { --writers; }
};

enum Kind { READ, WRITE, UPGRADE, TRY_READ, TRY_WRITE };
enum Style { RAW, OBJECT, ANY };
struct Op { Kind kind; Style style; unsigned hold, read_hold; bool move; };
std::ostream & operator<<(std::ostream &out, const Op &o) {
    return out << (const char*[]){"read", "write", "upgrade", "try read", "try write"}[o.kind]
               << (const char*[]){" mutex", " lock object", " reader_writer_lock"}[o.style] << (o.move ? " moved" : "") << ' ' << o.read_hold << '/' << o.hold;
}
void stay(unsigned n) { while (n--) sim::point(); }

void perform(const Op &o, RWMutex &mx, Holders &h) {
    switch (o.kind) {
        case READ:
            if (o.style == RAW) { mx.lock_read(); h.r(); stay(o.hold); h.ur(); mx.unlock_read(); }
            else if (o.style == OBJECT) {
                m::read_lock l(mx); h.r(); if (not l.owns_lock()) h.error = "a read_lock does not own its lock";
                if (o.move) { m::read_lock l2(std::move(l)); stay(o.hold); h.ur(); } // released by the new owner
                else { stay(o.hold); h.ur(); }
            } else {
                RWLock l(mx); l.lock_read(); h.r(); if (not l.owns_read_lock() or l.owns_write_lock()) h.error = "a reader_writer_lock does not own the read lock";
                if (o.move) { RWLock l2(std::move(l)); if (l.owns_read_lock() or not l2.owns_read_lock()) h.error = "a moved lock is still owned"; stay(o.hold); h.ur(); }
                else { stay(o.hold); h.ur(); if (o.hold % 2) l.unlock(); }
            }
            break;
        case WRITE:
            if (o.style == RAW) { mx.lock_write(); h.w(); stay(o.hold); h.uw(); mx.unlock_write(); }
            else if (o.style == OBJECT) {
                m::write_lock l(mx); h.w(); if (not l.owns_lock()) h.error = "a write_lock does not own its lock";
                if (o.move) { m::write_lock l2(std::move(l)); stay(o.hold); h.uw(); } else { stay(o.hold); h.uw(); }
            } else {
                RWLock l(mx); l.lock_write(); h.w(); if (l.owns_read_lock() or not l.owns_write_lock()) h.error = "a reader_writer_lock does not own the write lock";
                stay(o.hold); h.uw(); if (o.hold % 2) l.unlock();
            }
            break;
        case UPGRADE:
            if (o.style == RAW) {
                mx.lock_read(); h.r(); stay(o.read_hold);
                h.ur(); // from here on, the lock may be lost
                if (mx.upgrade()) { ++h.upgrades; h.w(); stay(o.hold); h.uw(); mx.unlock_write(); }
                else { ++h.failed_upgrades; h.r(); stay(o.hold); h.ur(); mx.unlock_read(); } // still reading
            } else if (o.style == OBJECT) {
                m::upgrade_lock u(mx); h.r(); stay(o.read_hold); h.ur();
                {
                    m::write_lock l = u.upgrade();
                    if (l.owns_lock()) { ++h.upgrades; h.w(); } else ++h.failed_upgrades;
                    if (u.owns_read_lock()) h.error = "an upgrade_lock owns its read lock after upgrade";
                    stay(o.hold);
                    if (l.owns_lock()) h.uw();
                }
                stay(o.read_hold); // with the upgrade_lock still alive
            } else {
                RWLock l(mx); l.lock_read(); h.r(); stay(o.read_hold); h.ur();
                if (l.upgrade()) { ++h.upgrades; h.w(); if (not l.owns_write_lock()) h.error = "no write lock after upgrade"; stay(o.hold); h.uw(); }
                else { ++h.failed_upgrades; if (l.owns_read_lock() or l.owns_write_lock()) h.error = "a lock is owned after a failed upgrade"; stay(o.hold); }
            }
            break;
        case TRY_READ: if (mx.try_lock_read()) { h.r(); stay(o.hold); h.ur(); mx.unlock_read(); } else ++h.failed_tries; break;
        case TRY_WRITE: if (mx.try_lock_write()) { h.w(); stay(o.hold); h.uw(); mx.unlock_write(); } else ++h.failed_tries; break;
    }
}

VP_PROP("C23", "schedules", 60000, 700000) {
    const unsigned nt = unsigned(2 + c.draw(c.chance(1, 3) ? 5 : 2));
    std::vector<std::vector<Op>> prog(nt);
    std::initializer_list<unsigned> mix[] = {{3, 3, 3, 1, 1}, {1, 1, 6, 0, 0}, {3, 1, 3, 0, 0}, {5, 5, 0, 1, 1}};
    auto &m = mix[c.draw(3)];
    for (unsigned t = 0; t != nt; ++t) {
        c.log() << "thread " << t << ":";
        for (size_t n = 1 + c.draw(3); n; --n) {
            Op o; o.kind = Kind(c.weighted(m)); o.style = Style(c.draw(2)); o.hold = unsigned(c.draw(3)); o.read_hold = unsigned(c.draw(3)); o.move = c.chance(1, 4);
            prog[t].push_back(o); c.log() << ' ' << o << (n == 1 ? "\n" : ",");
        }
    }
    const bool spurious = c.chance(1, 4);
    const unsigned preempt = unsigned(1 + c.draw(6));
    c.log() << "preemption " << preempt << "/8" << (spurious ? ", spurious wake-ups\n" : "\n");
    auto mx = std::make_unique<RWMutex>();
    auto h = std::make_unique<Holders>();
    std::string blocked;
    {
        sim::Run run(c, spurious);
        for (unsigned t = 0; t != nt; ++t) {
            auto th = new sim::Thread*;
            *th = run.start(t, [&prog, t, &mx, &h, th]() { auto me = *th; for (auto &o : prog[t]) { me->where = VP_STR(o); perform(o, *mx, *h); } delete th; });
        }
        run.run(preempt);
        if (run.stuck()) {
            for (unsigned t = 0; t != nt; ++t) if (sim::W->threads[t]->state != sim::Thread::IDLE) blocked += VP_STR("thread " << t << " in '" << sim::W->threads[t]->where << "'; ");
            blocked += VP_STR(h->readers << " readers and " << h->writers << " writers hold the lock");
            new std::vector<std::vector<Op>>(std::move(prog)); // stays with the threads which never end
            mx.release(); // abandoned
        }
        c.label_if(sim::W->switches > 60, "more than 60 switches");
    }
    c.nontrivial(h->grants > 2);
    c.label_if(h->upgrades, "upgrade"); c.label_if(h->failed_upgrades, "failed upgrade"); c.label_if(h->failed_tries, "failed attempt");
    const std::string error = h->error;
    if (not blocked.empty()) (void) h.release();
    VP_REQUIRE(c, error.empty(), "exclusion", error);
    VP_REQUIRE(c, blocked.empty(), "lost waiter", "no thread can run, but there are threads waiting: " << blocked);
    VP_REQUIRE(c, mx->try_lock_write(), "released", "the lock is still held after all threads have released it");
    mx->unlock_write();
}

/*----- Attempts in every state --------------------------------------------------------------------------------------*/
/// The driver brings the lock into a state with holders and waiters, thread by thread, and compares with the rule.
VP_PROP("C23", "states", 40000, 400000) {
    auto *mxp = new RWMutex(); auto &mx = *mxp;
    enum St { NONE, WAIT_R, HOLD_R, WAIT_W, HOLD_W, WAIT_U };
    struct Actor { St st = NONE; int cmd = 0; bool result = false, done = false; };
    const unsigned nt = unsigned(2 + c.draw(3));
    auto *actors = new std::vector<Actor>(nt); auto &A = *actors;
    bool finished = false; std::string err, key;
    {
        sim::Run run(c, false);
        auto *quit = new bool(false);
        // each actor performs the command given to it, then waits for the next one at a condition variable of its own
        auto *door = new std::deque<sim::CV>(nt); auto *dm = new std::deque<sim::Mutex>(nt);
        for (unsigned t = 0; t != nt; ++t)
            run.start(t, [&mx, &A, t, quit, door, dm]() {
                for (;;) {
                    { std::unique_lock<sim::Mutex> l((*dm)[t]); while (A[t].cmd == 0 and not *quit) (*door)[t].wait(l); }
                    if (*quit) return;
                    auto &a = A[t];
                    switch (a.cmd) {
                        case 1: mx.lock_read(); break;
                        case 2: mx.lock_write(); break;
                        case 3: a.result = mx.upgrade(); break;
                        case 4: a.result = mx.try_lock_read(); break;
                        case 5: a.result = mx.try_lock_write(); break;
                        case 6: mx.unlock_read(); break;
                        case 7: mx.unlock_write(); break;
                    }
                    a.cmd = 0; a.done = true;
                }
            });
        run.run(2);
        auto order = [&](unsigned t, int cmd) { A[t].cmd = cmd; A[t].done = false; sim::W->threads[t]->state = sim::Thread::READY; run.run(unsigned(1 + c.draw(5))); };
        auto count = [&](St s) { unsigned n = 0; for (auto &a : A) n += a.st == s; return n; };
        unsigned waits = 0, tries = 0;
        for (size_t n = 1 + c.draw(14); n and err.empty(); --n) {
            std::vector<std::pair<unsigned, int>> can;
            for (unsigned t = 0; t != nt; ++t)
                switch (A[t].st) {
                    case NONE: for (int k : {1, 2, 4, 5}) can.emplace_back(t, k); break;
                    case HOLD_R: can.emplace_back(t, 6); can.emplace_back(t, 3); break;
                    case HOLD_W: can.emplace_back(t, 7); break;
                    default: break;
                }
            if (can.empty()) break;
            auto [t, k] = can[c.draw(can.size() - 1)];
            static const char *names[] = {"", "lock_read", "lock_write", "upgrade", "try_lock_read", "try_lock_write", "unlock_read", "unlock_write"};
            c.log() << t << ' ' << names[k];
            const unsigned R = count(HOLD_R) + count(WAIT_U), Wr = count(HOLD_W), WW = count(WAIT_W), U = count(WAIT_U);
            order(t, k);
            switch (k) {
                case 1: A[t].st = WAIT_R; break;
                case 2: A[t].st = WAIT_W; break;
                case 3:
                    if (U) { if (not A[t].done or A[t].result) { key = "upgrade"; err = "a second upgrade does not fail at once"; } A[t].st = HOLD_R; }
                    else A[t].st = WAIT_U;
                    break;
                case 4: case 5: {
                    ++tries;
                    const bool want = k == 4 ? not Wr and not WW and not U : not Wr and not R;
                    if (not A[t].done or A[t].result != want) { key = "attempt"; err = VP_STR(names[k] << (A[t].done ? A[t].result ? " succeeds" : " fails" : " waits") << " while there are " << R << " readers, "
                                                          << Wr << " writers, " << WW << " waiting writers and " << U << " waiting upgraders"); }
                    if (A[t].result) A[t].st = k == 4 ? HOLD_R : HOLD_W;
                    break; }
                case 6: case 7: A[t].st = NONE; if (not A[t].done) { key = "release"; err = "releasing a lock waits"; } break;
            }
            /* Who has obtained the lock by now? */
            for (unsigned i = 0; i != nt; ++i)
                if (A[i].done) switch (A[i].st) {
                    case WAIT_R: A[i].st = HOLD_R; c.log() << " [" << i << " reads]"; break;
                    case WAIT_W: A[i].st = HOLD_W; c.log() << " [" << i << " writes]"; break;
                    case WAIT_U: A[i].st = HOLD_W; c.log() << " [" << i << " upgraded]"; if (not A[i].result) { key = "upgrade"; err = "the only upgrade fails"; } break;
                    default: break;
                }
            c.log() << '\n';
            if (not err.empty()) break;
            const unsigned r = count(HOLD_R) + count(WAIT_U), w = count(HOLD_W), ww = count(WAIT_W), wr = count(WAIT_R), u = count(WAIT_U);
            waits = std::max(waits, ww + wr + u);
            if (w > 1 or (w and r)) { key = "exclusion"; err = VP_STR(w << " writers and " << r << " readers hold the lock"); }
            else if (ww and not w and not r) { key = "lost waiter"; err = "a writer waits although nobody holds the lock"; }
            else if (u and r == 1) { key = "lost waiter"; err = "the upgrading reader waits although it is the last reader"; }
            else if (wr and not w and not ww and not u) { key = "lost waiter"; err = "a reader waits although there is no writer"; }
        }
        c.nontrivial(waits > 0 or tries > 1); c.label_if(waits > 1, "several waiters"); c.label_if(waits, "a waiter"); c.label_if(tries, "attempts");
        /* Release everything. */
        for (unsigned round = 0; round != 2 * nt and err.empty(); ++round)
            for (unsigned t = 0; t != nt; ++t) {
                if (A[t].st == HOLD_R) order(t, 6), A[t].st = NONE; else if (A[t].st == HOLD_W) order(t, 7), A[t].st = NONE;
                for (auto &a : A) if (a.done) { if (a.st == WAIT_R) a.st = HOLD_R; else if (a.st == WAIT_W or a.st == WAIT_U) a.st = HOLD_W; }
            }
        if (err.empty()) for (auto &a : A) if (a.st != NONE) { key = "lost waiter"; err = "a thread still waits after all others have released the lock"; }
        if (err.empty()) {
            *quit = true;
            for (unsigned t = 0; t != nt; ++t) sim::W->threads[t]->state = sim::Thread::READY;
            run.run(2);
            finished = not run.stuck();
            if (finished) { delete quit; delete door; delete dm; }
        }
    }
    if (finished) { delete mxp; delete actors; }
    VP_REQUIRE(c, err.empty(), key, err);
}

/*----- Ownership ----------------------------------------------------------------------------------------------------*/
template<typename L> struct Slot { std::unique_ptr<L> l; int mx = -1; int held = 0; /* 0, 1 = read, 2 = write */ };

VP_PROP("C23", "ownership", 40000, 400000) {
    constexpr unsigned N = 3;
    RWMutex mx[N];
    Slot<m::read_lock> rl[4]; Slot<m::write_lock> wl[4]; Slot<m::upgrade_lock> ul[4]; Slot<RWLock> rw[4];
    auto readers = [&](unsigned k) { unsigned n = 0; for (auto &s : rl) n += s.mx == int(k) and s.held == 1; for (auto &s : ul) n += s.mx == int(k) and s.held == 1; for (auto &s : rw) n += s.mx == int(k) and s.held == 1; return n; };
    auto writers = [&](unsigned k) { unsigned n = 0; for (auto &s : wl) n += s.mx == int(k) and s.held == 2; for (auto &s : rw) n += s.mx == int(k) and s.held == 2; return n; };
    auto can_r = [&](unsigned k) { return writers(k) == 0; };
    auto can_w = [&](unsigned k) { return writers(k) == 0 and readers(k) == 0; };
    auto move = [&](auto &from, auto &to, const char *what) { // `to` receives the lock of `from`, which is destroyed
        using L = std::remove_reference_t<decltype(*from.l)>;
        if (&from == &to) return;
        if (to.l) { *to.l = std::move(*from.l); c.log() << what << " move-assigned\n"; c.label("move assignment"); }
        else { to.l = std::make_unique<L>(std::move(*from.l)); c.log() << what << " move-constructed\n"; c.label("move construction"); }
        from.l.reset(); to.mx = from.mx; to.held = from.held; from.mx = -1; from.held = 0;
    };
    unsigned ops = 0;
    for (size_t n = 1 + c.size(30); n; --n) {
        const unsigned k = unsigned(c.draw(N - 1)), i = unsigned(c.draw(3)), j = unsigned(c.draw(3));
        switch (c.draw(3)) {
            case 0: {
                auto &s = rl[i];
                if (not s.l) {
                    switch (c.draw(2)) {
                        case 0: if (can_r(k)) { s.l = std::make_unique<m::read_lock>(mx[k]); s.held = 1; } else continue; break;
                        case 1: s.l = std::make_unique<m::read_lock>(mx[k], std::defer_lock); break;
                        case 2: if (can_r(k)) { mx[k].lock_read(); s.l = std::make_unique<m::read_lock>(mx[k], std::adopt_lock); s.held = 1; } else continue; break;
                    }
                    s.mx = int(k);
                } else switch (c.draw(2)) {
                    case 0: s.l.reset(); s.held = 0; s.mx = -1; break;
                    case 1: if (s.held) { s.l->unlock(); s.held = 0; } else if (can_r(unsigned(s.mx))) { s.l->lock(); s.held = 1; } break;
                    case 2: move(s, rl[j], "read_lock"); break;
                }
                break; }
            case 1: {
                auto &s = wl[i];
                if (not s.l) {
                    switch (c.draw(2)) {
                        case 0: if (can_w(k)) { s.l = std::make_unique<m::write_lock>(mx[k]); s.held = 2; } else continue; break;
                        case 1: s.l = std::make_unique<m::write_lock>(mx[k], std::defer_lock); break;
                        case 2: if (can_w(k)) { mx[k].lock_write(); s.l = std::make_unique<m::write_lock>(mx[k], std::adopt_lock); s.held = 2; } else continue; break;
                    }
                    s.mx = int(k);
                } else switch (c.draw(2)) {
                    case 0: s.l.reset(); s.held = 0; s.mx = -1; break;
                    case 1: if (s.held) { s.l->unlock(); s.held = 0; } else if (can_w(unsigned(s.mx))) { s.l->lock(); s.held = 2; } break;
                    case 2: move(s, wl[j], "write_lock"); break;
                }
                break; }
            case 2: {
                auto &s = ul[i];
                if (not s.l) {
                    switch (c.draw(2)) {
                        case 0: if (can_r(k)) { s.l = std::make_unique<m::upgrade_lock>(mx[k]); s.held = 1; } else continue; break;
                        case 1: s.l = std::make_unique<m::upgrade_lock>(mx[k], std::defer_lock); break;
                        case 2: if (can_r(k)) { mx[k].lock_read(); s.l = std::make_unique<m::upgrade_lock>(mx[k], std::adopt_lock); s.held = 1; } else continue; break;
                    }
                    s.mx = int(k);
                } else switch (c.draw(3)) {
                    case 0: s.l.reset(); s.held = 0; s.mx = -1; break;
                    case 1: if (s.held) { s.l->unlock(); s.held = 0; } else if (can_r(unsigned(s.mx))) { s.l->lock(); s.held = 1; } break;
                    case 2: move(s, ul[j], "upgrade_lock"); break;
                    case 3: if (s.held and readers(unsigned(s.mx)) == 1 and not wl[j].l) {
                        auto w = s.l->upgrade();
                        VP_REQUIRE(c, w.owns_lock() and not s.l->owns_read_lock(), "upgrade", "the upgrade of the only reader fails");
                        wl[j].l = std::make_unique<m::write_lock>(std::move(w)); wl[j].mx = s.mx; wl[j].held = 2; s.held = 0;
                        c.log() << "upgraded\n"; c.label("upgrade");
                    } break;
                }
                break; }
            case 3: {
                auto &s = rw[i];
                if (not s.l) { s.l = std::make_unique<RWLock>(mx[k]); s.mx = int(k); }
                else switch (c.draw(4)) {
                    case 0: s.l.reset(); s.held = 0; s.mx = -1; break;
                    case 1: if (s.held) { s.l->unlock(); s.held = 0; } else if (can_r(unsigned(s.mx))) { s.l->lock_read(); s.held = 1; } break;
                    case 2: if (s.held) { s.l->unlock(); s.held = 0; } else if (can_w(unsigned(s.mx))) { s.l->lock_write(); s.held = 2; } break;
                    case 3: move(s, rw[j], "reader_writer_lock"); break;
                    case 4: if (s.held == 1 and readers(unsigned(s.mx)) == 1) { VP_REQUIRE(c, s.l->upgrade(), "upgrade", "the upgrade of the only reader fails"); s.held = 2; c.label("upgrade"); } break;
                }
                break; }
        }
        ++ops;
        for (unsigned k = 0; k != N; ++k) c.log() << "mutex " << k << ": " << readers(k) << " readers, " << writers(k) << " writers" << (k + 1 == N ? "\n" : "; ");
        /* The objects and the mutexes agree. */
        for (auto &s : rl) if (s.l) VP_REQUIRE(c, s.l->owns_lock() == (s.held == 1), "owns_lock", "read_lock");
        for (auto &s : wl) if (s.l) VP_REQUIRE(c, s.l->owns_lock() == (s.held == 2), "owns_lock", "write_lock");
        for (auto &s : ul) if (s.l) VP_REQUIRE(c, s.l->owns_read_lock() == (s.held == 1), "owns_lock", "upgrade_lock");
        for (auto &s : rw) if (s.l) VP_REQUIRE(c, s.l->owns_read_lock() == (s.held == 1) and s.l->owns_write_lock() == (s.held == 2), "owns_lock", "reader_writer_lock");
        for (unsigned k = 0; k != N; ++k) {
            const bool w = mx[k].try_lock_write(); if (w) mx[k].unlock_write();
            VP_REQUIRE(c, w == can_w(k), "attempt", "try_lock_write " << (w ? "succeeds" : "fails") << " with " << readers(k) << " readers and " << writers(k) << " writers");
            const bool r = mx[k].try_lock_read(); if (r) mx[k].unlock_read();
            VP_REQUIRE(c, r == can_r(k), "attempt", "try_lock_read " << (r ? "succeeds" : "fails") << " with " << readers(k) << " readers and " << writers(k) << " writers");
        }
    }
    c.nontrivial(ops > 3);
    for (auto &s : rl) s.l.reset(); for (auto &s : wl) s.l.reset(); for (auto &s : ul) s.l.reset(); for (auto &s : rw) s.l.reset();
    for (auto &x : mx) { VP_REQUIRE(c, x.try_lock_write(), "released", "a lock is still held after the destruction of all owners"); x.unlock_write(); }
}

/*----- Pools --------------------------------------------------------------------------------------------------------*/
struct PointHash { size_t operator()(const std::string &s) const { sim::point(); return s.size() % 2; } };
struct PointEq { bool operator()(const std::string &a, const std::string &b) const { sim::point(); return a == b; } };
struct Obj { std::string s; Obj(std::string s) : s(std::move(s)) { } virtual ~Obj() = default; bool operator==(const Obj &o) const { sim::point(); return s == o.s; } };
struct ObjHash { size_t operator()(const Obj &o) const { sim::point(); return o.s.size() % 2; } };

VP_PROP("C23", "pools", 15000, 150000) {
    const unsigned nt = unsigned(2 + c.draw(2));
    std::vector<std::vector<std::pair<std::string, bool>>> prog(nt);
    for (unsigned t = 0; t != nt; ++t) {
        c.log() << "thread " << t << ":";
        for (size_t n = 1 + c.draw(5); n; --n) { prog[t].emplace_back(std::string(c.draw(3), char('a' + c.draw(2))), c.coin()); c.log() << ' ' << quote(prog[t].back().first); }
        c.log() << '\n';
    }
    std::map<std::string, std::set<const void*>> addr; std::map<std::string, unsigned> refs;
    std::string blocked, error;
    auto go = [&](auto &pool, auto make, auto value) {
        using P = decltype(make(pool, std::string()));
        auto kept = std::make_unique<std::vector<std::vector<P>>>(nt);
        {
            sim::Run run(c, false);
            for (unsigned t = 0; t != nt; ++t)
                run.start(t, [&, t]() {
                    for (auto &[s, keep] : prog[t]) {
                        P p = make(pool, s);
                        if (value(p) != s) error = VP_STR("pooling " << quote(s) << " yields " << quote(value(p)));
                        addr[s].insert(&*p);
                        if (keep) { (*kept)[t].push_back(p); ++refs[s]; }
                        sim::point();
                    }
                });
            run.run(unsigned(1 + c.draw(5)));
            if (run.stuck()) { for (unsigned t = 0; t != nt; ++t) if (sim::W->threads[t]->state != sim::Thread::IDLE) blocked += VP_STR("thread " << t << ' '); }
        }
        if (not blocked.empty()) { std::cerr << "threads pooling wait forever: " << blocked << std::endl; abort(); } // references to this frame are left
        VP_REQUIRE(c, error.empty(), "pool value", error);
        size_t distinct = 0; for (auto &[s, a] : addr) { VP_REQUIRE(c, a.size() == 1, "pool identity", quote(s) << " is pooled at " << a.size() << " places"); ++distinct; }
        VP_REQUIRE(c, pool.size() == distinct, "pool size", pool.size() << " entries instead of " << distinct);
        for (auto &v : *kept) for (auto &p : v) VP_REQUIRE(c, p.count() == refs[value(p)], "pool count", "count " << p.count() << " of " << quote(value(p)) << " instead of " << refs[value(p)]);
        kept->clear();
    };
    if (c.coin()) { c.label("objects"); m::ThreadSafePool<Obj, ObjHash, std::equal_to<Obj>> pool; go(pool, [](auto &p, const std::string &s) { return p(Obj(s)); }, [](auto &p) { return p->s; }); }
    else { m::ThreadSafePODPool<std::string, PointHash, PointEq, std::identity> pool; go(pool, [](auto &p, const std::string &s) { return p(s); }, [](auto &p) { return *p; }); }
    c.nontrivial(addr.size() > 1);
}

}
