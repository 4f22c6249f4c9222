#include "mc_omp.hpp"

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>
#include <unordered_set>

#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>

// This file itself must not be compiled with -fsanitize=thread.

namespace
{
    enum Status { IDLE, RUNNABLE, WAIT_BARRIER, WAIT_LOCK, DONE };

    struct WorkShare {
        bool init = false;
        bool ull  = false, up = true;
        long next = 0, end = 0, incr = 1, chunk = 1;
        unsigned long long unext = 0, uend = 0, uincr = 1, uchunk = 1;
        bool single_taken = false;
        void* copy        = nullptr;
    };

    // a region entered by a member of a team: a team of one with work shares of its own
    struct Frame {
        std::vector<std::unique_ptr<WorkShare>> shares;
        std::size_t saved_ws;
    };

    struct Worker {
        int id;
        sem_t sem;
        pthread_t th;
        Status st        = IDLE;
        const void* lock = nullptr;
        std::size_t ws   = 0; // index of the work share this thread is in / will meet next
        std::vector<const void*> held;
        std::vector<Frame> nested; // regions this thread has entered inside the team's region
    };

    struct Choice {
        int n, chosen;
        bool costs; // taking an alternative other than 0 preempts a runnable thread
    };

    constexpr int MAX = 16;
    struct Clock {
        uint32_t c[MAX] = {};
        void join(const Clock& o)
        {
            for(int i = 0; i < MAX; ++i) c[i] = std::max(c[i], o.c[i]);
        }
    };
    Clock vc[MAX];
    std::unordered_map<const void*, Clock> sync_vc;
    std::set<std::pair<uintptr_t, uintptr_t>> races;
    std::string race_text;
    uint64_t budget = ~uint64_t(0), used[MAX] = {};
    struct Recent {
        uintptr_t granule;
        uint32_t clock;
        uint8_t thread, mask, kind;
    };
    std::vector<Recent> recent(1u << 20);

    struct Access {
        int thread;
        uint32_t clock;
        uint8_t mask;
        bool write, atomic;
        std::vector<const void*> held;
        uintptr_t pc;
    };

    std::vector<Worker*> workers;
    int T = 1;
    bool in_region = false;
    int team = 1;
    int current = 0;
    void (*region_fn)(void*) = nullptr;
    void* region_data        = nullptr;
    std::vector<std::unique_ptr<WorkShare>> shares;
    std::map<const void*, int> locks; // lock -> owner
    void* quarantine = nullptr; // list threaded through the released blocks

    // exploration state
    bool exploring = false, profiling = false;
    std::vector<Choice> trail;
    std::vector<int> prefix;
    std::vector<int> perm; // order of thread starts when profiling/permuting
    uint64_t n_points = 0, n_regions = 0, n_access = 0, n_next = 0, n_lock = 0;
    std::unordered_map<uintptr_t, std::vector<Access>> record;
    std::unordered_set<uintptr_t> conflict, conflict_seen; // code locations
    bool start_points = false;

    [[noreturn]] void die(const char* msg)
    {
        std::fprintf(stderr, "mc_omp: %s\n", msg);
        std::fflush(stderr);
        std::abort();
    }

    void analyse_phase()
    {
        for(auto& r : record) {
            auto& v = r.second;
            for(std::size_t i = 0; i < v.size(); ++i) {
                for(std::size_t j = i + 1; j < v.size(); ++j) {
                    if(v[i].thread == v[j].thread) continue;
                    if(!v[i].write && !v[j].write) continue;
                    if(!(v[i].mask & v[j].mask)) continue;
                    bool common = false;
                    for(auto l : v[i].held)
                        if(std::find(v[j].held.begin(), v[j].held.end(), l) != v[j].held.end())
                            common = true;
                    if(common) continue;
                    conflict_seen.insert(v[i].pc);
                    conflict_seen.insert(v[j].pc);
                }
            }
        }
        record.clear();
    }

    void acquire(const void* l)
    {
        auto it = sync_vc.find(l);
        if(it != sync_vc.end()) vc[current].join(it->second);
    }
    void release(const void* l)
    {
        sync_vc[l].join(vc[current]);
        ++vc[current].c[current];
    }

    std::string where(uintptr_t pc)
    {
        Dl_info i;
        char b[256];
        if(dladdr(reinterpret_cast<void*>(pc), &i) && i.dli_fname)
            std::snprintf(b, sizeof b, "%s+0x%lx", i.dli_fname, (unsigned long)(pc - uintptr_t(i.dli_fbase)));
        else
            std::snprintf(b, sizeof b, "0x%lx", (unsigned long)pc);
        return b;
    }
    void check_race(const Access& a, const Access& b, uintptr_t addr) // a happened first
    {
        if(a.thread == b.thread || !(a.write || b.write) || (a.atomic && b.atomic) || !(a.mask & b.mask)) return;
        if(a.clock <= vc[b.thread].c[a.thread]) return;
        if(races.insert({a.pc, b.pc}).second && race_text.empty()) {
            char t[128];
            std::snprintf(t, sizeof t, "thread %d %s and thread %d %s the same memory without order: ", a.thread,
                          a.write ? "writes" : "reads", b.thread, b.write ? "writes" : "reads");
            race_text = t + where(a.pc) + " and " + where(b.pc);
        }
        (void)addr;
    }

    std::vector<int> enabled()
    {
        std::vector<int> e;
        if(current >= 0 && workers[current]->st == RUNNABLE) e.push_back(current);
        for(std::size_t p = 0; p < perm.size(); ++p) {
            int i = perm[p];
            if(i != current && i < team && workers[i]->st == RUNNABLE) e.push_back(i);
        }
        return e;
    }

    void hand_over(int to)
    {
        const int from = current;
        if(to == from) return;
        current = to;
        sem_post(&workers[to]->sem);
        while(sem_wait(&workers[from]->sem) != 0) {
        }
    }

    // pick who runs next; explorable: an exploration decision is taken here
    int decide(bool explorable)
    {
        auto e = enabled();
        if(e.empty()) return -1;
        if(e.size() == 1 || !exploring || !explorable) return e[0];
        const bool running = (workers[current]->st == RUNNABLE);
        int c = 0;
        ++n_points;
        if(trail.size() < prefix.size()) {
            c = prefix[trail.size()];
            if(c >= int(e.size())) die("schedule prefix diverged");
        }
        trail.push_back({int(e.size()), c, running});
        return e[c];
    }

    void point(bool explorable)
    {
        if(!in_region || team < 2) return;
        int n = decide(explorable);
        if(n < 0) die("deadlock");
        hand_over(n);
    }

    void block()
    {
        // current is not runnable
        int n = decide(true);
        if(n < 0) die("deadlock: every thread of the team waits");
        hand_over(n);
    }

    void barrier()
    {
        if(!in_region || team < 2 || !workers[current]->nested.empty()) return;
        auto& w   = *workers[current];
        w.st      = WAIT_BARRIER;
        bool all  = true;
        for(int i = 0; i < team; ++i)
            if(workers[i]->st != WAIT_BARRIER) all = false;
        if(all) {
            if(profiling) analyse_phase();
            Clock all_vc;
            for(int i = 0; i < team; ++i) all_vc.join(vc[i]);
            for(int i = 0; i < team; ++i) {
                vc[i] = all_vc;
                ++vc[i].c[i];
                workers[i]->st = RUNNABLE;
            }
            point(true);
            return;
        }
        for(int i = 0; i < team; ++i)
            if(workers[i]->st == DONE) die("barrier not reached by every thread");
        block();
    }

    void lock(const void* l)
    {
        if(!in_region || team < 2) return;
        ++n_lock;
        point(true);
        auto& w = *workers[current];
        while(locks.count(l)) {
            w.st   = WAIT_LOCK;
            w.lock = l;
            block();
        }
        locks[l] = w.id;
        acquire(l);
        w.held.push_back(l);
    }

    void unlock(const void* l)
    {
        if(!in_region || team < 2) return;
        auto& w = *workers[current];
        release(l);
        locks.erase(l);
        auto it = std::find(w.held.begin(), w.held.end(), l);
        if(it != w.held.end()) w.held.erase(it);
        for(int i = 0; i < team; ++i)
            if(workers[i]->st == WAIT_LOCK && workers[i]->lock == l) workers[i]->st = RUNNABLE;
        point(true);
    }

    void body_of(Worker& w)
    {
        region_fn(region_data);
        w.st = DONE;
    }

    void finished(Worker& w)
    {
        // hand the baton on; thread 0 (the master) returns to its caller only when all are done
        auto e = enabled();
        if(e.empty()) {
            for(int i = 0; i < team; ++i)
                if(workers[i]->st != DONE) die("deadlock: a thread never finishes");
            if(w.id != 0) {
                current = 0;
                sem_post(&workers[0]->sem);
            }
            return;
        }
        int n = decide(true);
        const int from = current;
        current = n;
        sem_post(&workers[n]->sem);
        if(from == 0) {
            while(sem_wait(&workers[0]->sem) != 0) {
            }
        }
    }

    void* worker_main(void* p)
    {
        auto& w = *static_cast<Worker*>(p);
        for(;;) {
            while(sem_wait(&w.sem) != 0) {
            }
            body_of(w);
            finished(w);
        }
        return nullptr;
    }

    void ensure(int n)
    {
        while(int(workers.size()) < n) {
            auto* w = new Worker;
            w->id   = int(workers.size());
            sem_init(&w->sem, 0, 0);
            workers.push_back(w);
            if(w->id > 0 && pthread_create(&w->th, nullptr, worker_main, w) != 0)
                die("pthread_create failed");
        }
        while(int(perm.size()) < n) perm.push_back(int(perm.size()));
    }

    // other members of the enclosing team may run while this one is inside
    void alone(void (*fn)(void*), void* data, std::unique_ptr<WorkShare> pre)
    {
        Worker& w = *workers[current];
        w.nested.emplace_back();
        auto& f    = w.nested.back();
        f.saved_ws = w.ws;
        w.ws       = pre ? 1 : 0;
        if(pre) f.shares.push_back(std::move(pre));
        fn(data);
        w.ws = w.nested.back().saved_ws;
        w.nested.pop_back();
    }

    void region(void (*fn)(void*), void* data, unsigned nt, std::unique_ptr<WorkShare> pre)
    {
        ensure(1);
        if(current < 0) current = 0;
        if(in_region || !workers[current]->nested.empty()) {
            alone(fn, data, std::move(pre));
            return;
        }
        int n = nt ? int(nt) : T;
        ensure(n);
        ++n_regions;
        shares.clear();
        const bool has_pre = bool(pre);
        if(n == 1) {
            team    = 1;
            current = 0;
            alone(fn, data, std::move(pre));
            return;
        }
        if(pre) shares.push_back(std::move(pre));
        region_fn   = fn;
        region_data = data;
        team        = n;
        locks.clear();
        record.clear();
        sync_vc.clear();
        if(n > MAX) die("team too large");
        std::fill(recent.begin(), recent.end(), Recent{0, 0, 0, 0, 0});
        for(int i = 0; i < n; ++i) {
            vc[i]      = Clock();
            vc[i].c[i] = 1;
            used[i]    = 0;
            workers[i]->st = RUNNABLE;
            workers[i]->ws = has_pre ? 1 : 0;
            workers[i]->held.clear();
        }
        in_region = true;
        current   = -1;
        // who starts
        std::vector<int> e;
        for(int i : perm)
            if(i < n) e.push_back(i);
        int first = e[0];
        if(exploring && start_points) {
            int c = 0;
            ++n_points;
            if(trail.size() < prefix.size()) {
                c = prefix[trail.size()];
                if(c >= int(e.size())) die("schedule prefix diverged");
            }
            trail.push_back({int(e.size()), c, false});
            first = e[c];
        }
        current = first;
        if(first != 0) {
            sem_post(&workers[first]->sem);
            while(sem_wait(&workers[0]->sem) != 0) {
            }
        }
        // the master is now scheduled for the first time
        body_of(*workers[0]);
        finished(*workers[0]);
        if(profiling) analyse_phase();
        in_region = false;
        current   = 0;
        team      = 1;
        shares.clear();
        while(quarantine) {
            void* q    = quarantine;
            quarantine = *static_cast<void**>(q);
            std::free(q);
        }
    }

    WorkShare& share_at(std::size_t i)
    {
        ensure(1);
        auto& inner = workers[current < 0 ? 0 : current]->nested;
        if(!inner.empty()) {
            auto& own = inner.back().shares;
            while(own.size() <= i) own.emplace_back(new WorkShare);
            return *own[i];
        }
        while(shares.size() <= i) shares.emplace_back(new WorkShare);
        return *shares[i];
    }

    Worker& me()
    {
        ensure(1);
        return *workers[current < 0 ? 0 : current];
    }

    bool ws_next(WorkShare& s, long* is, long* ie)
    {
        if(me().nested.empty()) { // the shares of a team of one concern nobody else
            ++n_next;
            point(true);
        }
        if(s.incr > 0 ? s.next >= s.end : s.next <= s.end) return false;
        *is    = s.next;
        long e = s.next + s.chunk * s.incr;
        if(s.incr > 0 ? e > s.end : e < s.end) e = s.end;
        *ie    = e;
        s.next = e;
        return true;
    }
    bool ws_next_ull(WorkShare& s, unsigned long long* is, unsigned long long* ie)
    {
        if(me().nested.empty()) { // the shares of a team of one concern nobody else
            ++n_next;
            point(true);
        }
        if(s.up ? s.unext >= s.uend : s.unext <= s.uend) return false;
        *is                     = s.unext;
        unsigned long long left = s.up ? s.uend - s.unext : s.unext - s.uend;
        unsigned long long step = s.uchunk * (s.up ? s.uincr : -s.uincr);
        unsigned long long e;
        if(step >= left)
            e = s.uend;
        else
            e = s.up ? s.unext + step : s.unext - step;
        *ie     = e;
        s.unext = e;
        return true;
    }
    bool loop_start(long start, long end, long incr, long chunk, long* is, long* ie)
    {
        auto& w = me();
        auto& s = share_at(w.ws++);
        if(!s.init) {
            s.init  = true;
            s.next  = start;
            s.end   = end;
            s.incr  = incr;
            s.chunk = chunk > 0 ? chunk : 1;
        }
        return ws_next(s, is, ie);
    }
    bool loop_start_ull(bool up, unsigned long long start, unsigned long long end,
                        unsigned long long incr, unsigned long long chunk, unsigned long long* is,
                        unsigned long long* ie)
    {
        auto& w = me();
        auto& s = share_at(w.ws++);
        if(!s.init) {
            s.init   = true;
            s.ull    = true;
            s.up     = up;
            s.unext  = start;
            s.uend   = end;
            s.uincr  = incr;
            s.uchunk = chunk > 0 ? chunk : 1;
        }
        return ws_next_ull(s, is, ie);
    }
    __attribute__((unused)) void access(const void* a, std::size_t size, bool write, bool atomic, void* ra)
    {
        static bool busy = false; // memory functions this library uses itself come back here
        if(busy || !in_region || current < 0 || team < 2 || (!profiling && !exploring)) return;
        const auto p  = reinterpret_cast<uintptr_t>(a);
        const auto pc = reinterpret_cast<uintptr_t>(ra);
        if(profiling && used[current] < budget) {
            busy = true;
            ++n_access;
            ++used[current];
            if(atomic) {
                acquire(a);
            }
            const uint8_t kind = uint8_t(1 + (write ? 1 : 0) + (atomic ? 2 : 0));
            for(uintptr_t g = p & ~uintptr_t(7); g < p + size; g += 8) {
                uint8_t mask = 0;
                for(int b = 0; b < 8; ++b)
                    if(g + b >= p && g + b < p + size) mask |= uint8_t(1u << b);
                // seen just now?
                auto& r = recent[(g >> 3) & (recent.size() - 1)];
                if(r.granule == g && r.thread == current && r.mask == mask && r.kind == kind && r.clock == vc[current].c[current] && !conflict.size())
                    continue;
                r       = Recent{g, vc[current].c[current], uint8_t(current), mask, kind};
                auto& v = record[g];
                bool found = false;
                const Access now{current, vc[current].c[current], mask, write, atomic, workers[current]->held, pc};
                for(auto& x : v) {
                    check_race(x, now, g);
                    if(x.thread == current && x.write == write && x.atomic == atomic && x.pc == pc && x.held == now.held) {
                        x.mask |= mask;
                        x.clock = now.clock;
                        found = true;
                    }
                }
                if(!found) v.push_back(now);
            }
            if(atomic) release(a);
            busy = false;
        }
        if(exploring && conflict.count(pc)) point(true);
    }
} // namespace

namespace mcomp
{
    void set_threads(int n) { T = n; }
    void set_access_budget(uint64_t n) { budget = n; }

    Stats explore(int threads, int preemptions, uint64_t max_schedules,
                  const std::function<void()>& body, const std::function<bool()>& check)
    {
        Stats st;
        const int savedT = T;
        T                = threads;
        ensure(threads);
        for(std::size_t i = 0; i < perm.size(); ++i) perm[i] = int(i);

        auto execute = [&](bool prof) {
            n_regions = n_access = n_next = n_lock = 0;
            trail.clear();
            profiling = prof;
            body();
            profiling = false;
            ++st.schedules;
            std::string s;
            for(auto& c : trail) s += std::to_string(c.chosen) + ",";
            st.last_schedule = s;
            return check();
        };

        // 1. profile: one execution per order of the team, recording who touches what
        conflict.clear();
        conflict_seen.clear();
        races.clear();
        race_text.clear();
        exploring = false;
        std::vector<int> order(threads);
        for(int i = 0; i < threads; ++i) order[i] = i;
        bool go = true, first = true;
        do {
            for(int i = 0; i < threads; ++i) perm[i] = order[i];
            go = execute(true);
            if(first) {
                st.regions     = n_regions;
                st.accesses    = n_access;
                st.worksharing = n_next;
                st.locks       = n_lock;
                first          = false;
            }
            st.last_schedule = "order";
            for(int i : order) st.last_schedule += " " + std::to_string(i);
            if(!go) break;
        } while(preemptions >= 0 && threads <= 4 && std::next_permutation(order.begin(), order.end()));
        for(std::size_t i = 0; i < perm.size(); ++i) perm[i] = int(i);

        // 2. explore the schedules at the points that matter
        uint64_t total_conflicts = conflict_seen.size();
        if(go && preemptions >= 0 && (st.worksharing > 0 || st.locks > 0 || total_conflicts > 0)) {
            exploring    = true;
            start_points = true;
            for(int pass = 0; pass < 3 && go; ++pass) {
                conflict.insert(conflict_seen.begin(), conflict_seen.end());
                const auto before = conflict.size();
                prefix.clear();
                for(;;) {
                    n_points = 0;
                    go       = execute(true);
                    st.points += n_points;
                    if(!go) break;
                    if(st.schedules >= max_schedules) {
                        st.capped = true;
                        break;
                    }
                    // backtrack
                    std::vector<int> pre(trail.size() + 1, 0);
                    for(std::size_t i = 0; i < trail.size(); ++i)
                        pre[i + 1] = pre[i] + ((trail[i].costs && trail[i].chosen) ? 1 : 0);
                    int i = int(trail.size()) - 1;
                    for(; i >= 0; --i) {
                        if(trail[i].chosen + 1 >= trail[i].n) continue;
                        const int cost = pre[i] + (trail[i].costs ? 1 : 0);
                        if(cost > preemptions) continue;
                        break;
                    }
                    if(i < 0) break;
                    prefix.clear();
                    for(int k = 0; k < i; ++k) prefix.push_back(trail[k].chosen);
                    prefix.push_back(trail[i].chosen + 1);
                }
                if(st.capped || !go || conflict_seen.size() <= before) break;
            }
            exploring    = false;
            start_points = false;
        }
        st.conflicts = conflict_seen.size();
        st.races     = races.size();
        st.race_text = race_text;
        prefix.clear();
        trail.clear();
        conflict.clear();
        T = savedT;
        return st;
    }
} // namespace mcomp

extern "C" {
static bool inside_nested() { return !workers.empty() && current >= 0 && !workers[current]->nested.empty(); }
int omp_get_thread_num() { return (in_region && team > 1 && !inside_nested()) ? current : 0; }
int omp_get_num_threads() { return in_region && !inside_nested() ? team : 1; }
int omp_get_max_threads() { return T; }
int omp_get_num_procs() { return T > 1 ? T - 1 : 2; } // has no bearing on the number of threads
int omp_get_thread_limit() { return 64; }
int omp_in_parallel() { return in_region && team > 1; }
int omp_get_level() { return (in_region ? 1 : 0) + (inside_nested() ? int(workers[current]->nested.size()) : 0); }
int omp_get_dynamic() { return 0; }
void omp_set_dynamic(int) {}
void omp_set_num_threads(int n) { if(n > 0) T = n; }
void omp_set_nested(int) {}
double omp_get_wtime()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
void omp_init_lock(void*) {}
void omp_destroy_lock(void*) {}
void omp_set_lock(void* l) { lock(l); }
void omp_unset_lock(void* l) { unlock(l); }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) { region(fn, data, nt, nullptr); }
void GOMP_barrier() { barrier(); }
static char anon_critical, anon_atomic;
void GOMP_critical_start() { lock(&anon_critical); }
void GOMP_critical_end() { unlock(&anon_critical); }
void GOMP_critical_name_start(void** p) { lock(p); }
void GOMP_critical_name_end(void** p) { unlock(p); }
void GOMP_atomic_start() { lock(&anon_atomic); }
void GOMP_atomic_end() { unlock(&anon_atomic); }
bool GOMP_single_start()
{
    auto& w = me();
    auto& s = share_at(w.ws++);
    point(true);
    if(s.single_taken) return false;
    s.single_taken = true;
    return true;
}
void* GOMP_single_copy_start()
{
    auto& w = me();
    auto& s = share_at(w.ws++);
    if(!s.single_taken) {
        s.single_taken = true;
        return nullptr;
    }
    barrier();
    return s.copy;
}
void GOMP_single_copy_end(void* d)
{
    auto& w                  = me();
    share_at(w.ws - 1).copy = d;
    barrier();
}
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { barrier(); return false; }
void GOMP_ordered_start() {}
void GOMP_ordered_end() {}
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool,
               unsigned, void**, int, void*)
{
    if(cpy) {
        std::vector<char> buf(static_cast<std::size_t>(size + align));
        char* p = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(buf.data()) + align - 1)
                                          & ~uintptr_t(align - 1));
        cpy(p, data);
        fn(p);
    } else
        fn(data);
}
void GOMP_taskwait() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}

#define LOOP(NAME)                                                                                \
    bool GOMP_loop_##NAME##_start(long a, long b, long i, long c, long* s, long* e)               \
    {                                                                                             \
        return loop_start(a, b, i, c, s, e);                                                      \
    }                                                                                             \
    bool GOMP_loop_##NAME##_next(long* s, long* e)                                                \
    {                                                                                             \
        return ws_next(share_at(me().ws - 1), s, e);                                              \
    }                                                                                             \
    bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long a, unsigned long long b,        \
                                      unsigned long long i, unsigned long long c,                 \
                                      unsigned long long* s, unsigned long long* e)               \
    {                                                                                             \
        return loop_start_ull(up, a, b, i, c, s, e);                                              \
    }                                                                                             \
    bool GOMP_loop_ull_##NAME##_next(unsigned long long* s, unsigned long long* e)                \
    {                                                                                             \
        return ws_next_ull(share_at(me().ws - 1), s, e);                                          \
    }                                                                                             \
    void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned nt, long a, long b,       \
                                   long i, long c, unsigned)                                      \
    {                                                                                             \
        std::unique_ptr<WorkShare> w(new WorkShare);                                              \
        w->init  = true;                                                                          \
        w->next  = a;                                                                             \
        w->end   = b;                                                                             \
        w->incr  = i;                                                                             \
        w->chunk = c > 0 ? c : 1;                                                                 \
        region(fn, d, nt, std::move(w));                                                          \
    }
LOOP(static)
LOOP(dynamic)
LOOP(guided)
LOOP(nonmonotonic_dynamic)
LOOP(nonmonotonic_guided)

#define RLOOP(NAME)                                                                               \
    bool GOMP_loop_##NAME##_start(long a, long b, long i, long* s, long* e)                       \
    {                                                                                             \
        return loop_start(a, b, i, 1, s, e);                                                      \
    }                                                                                             \
    bool GOMP_loop_##NAME##_next(long* s, long* e)                                                \
    {                                                                                             \
        return ws_next(share_at(me().ws - 1), s, e);                                              \
    }                                                                                             \
    bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long a, unsigned long long b,        \
                                      unsigned long long i, unsigned long long* s,                \
                                      unsigned long long* e)                                      \
    {                                                                                             \
        return loop_start_ull(up, a, b, i, 1, s, e);                                              \
    }                                                                                             \
    bool GOMP_loop_ull_##NAME##_next(unsigned long long* s, unsigned long long* e)                \
    {                                                                                             \
        return ws_next_ull(share_at(me().ws - 1), s, e);                                          \
    }                                                                                             \
    void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned nt, long a, long b,       \
                                   long i, unsigned)                                              \
    {                                                                                             \
        std::unique_ptr<WorkShare> w(new WorkShare);                                              \
        w->init = true;                                                                           \
        w->next = a;                                                                              \
        w->end  = b;                                                                              \
        w->incr = i;                                                                              \
        region(fn, d, nt, std::move(w));                                                          \
    }
RLOOP(runtime)
RLOOP(nonmonotonic_runtime)
RLOOP(maybe_nonmonotonic_runtime)

unsigned GOMP_sections_start(unsigned n)
{
    long s = 0, e = 0;
    return loop_start(1, long(n) + 1, 1, 1, &s, &e) ? unsigned(s) : 0;
}
unsigned GOMP_sections_next()
{
    long s = 0, e = 0;
    return ws_next(share_at(me().ws - 1), &s, &e) ? unsigned(s) : 0;
}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned n, unsigned)
{
    std::unique_ptr<WorkShare> w(new WorkShare);
    w->init = true;
    w->next = 1;
    w->end  = long(n) + 1;
    region(fn, d, nt, std::move(w));
}
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}

// Guards of function-local statics, reached when a static is first used inside a parallel region.
// (the harness object's references are renamed to these)
int __cxa_guard_acquire(uint64_t*);
void __cxa_guard_release(uint64_t*);
int mc_guard_acquire(uint64_t* g)
{
    if(in_region && team > 1) {
        if(*reinterpret_cast<volatile char*>(g)) {
            acquire(g);
            return 0;
        }
        lock(g);
        if(*reinterpret_cast<volatile char*>(g)) {
            unlock(g);
            return 0;
        }
        return 1;
    }
    return __cxa_guard_acquire(g);
}
void mc_guard_release(uint64_t* g)
{
    if(in_region && team > 1 && locks.count(g)) {
        *reinterpret_cast<char*>(g) = 1;
        unlock(g);
        return;
    }
    __cxa_guard_release(g);
}

#ifdef MC_OMP_TSAN
#define RA __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, false, RA); }
void __tsan_vptr_read(void** p) { access(p, 8, false, false, RA); }
void __tsan_read_range(void* p, std::size_t n) { if(n) access(p, n, false, false, RA); }
void __tsan_write_range(void* p, std::size_t n) { if(n) access(p, n, true, false, RA); }
#define HOT (in_region && team > 1 && current >= 0 && (exploring || (profiling && used[current] < budget)))
#define RW(N)                                                                                     \
    void __tsan_read##N(void* p) { if(HOT) access(p, N, false, false, RA); }                          \
    void __tsan_write##N(void* p) { if(HOT) access(p, N, true, false, RA); }                          \
    void __tsan_unaligned_read##N(void* p) { if(HOT) access(p, N, false, false, RA); }                \
    void __tsan_unaligned_write##N(void* p) { if(HOT) access(p, N, true, false, RA); }                \
    void __tsan_volatile_read##N(void* p) { if(HOT) access(p, N, false, false, RA); }                 \
    void __tsan_volatile_write##N(void* p) { if(HOT) access(p, N, true, false, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define AT(B, Ty)                                                                                 \
    Ty __tsan_atomic##B##_load(const volatile Ty* a, int)                                         \
    {                                                                                             \
        access(const_cast<Ty*>(a), sizeof(Ty), false, true, RA);                                      \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                              \
    }                                                                                             \
    void __tsan_atomic##B##_store(volatile Ty* a, Ty v, int)                                      \
    {                                                                                             \
        access(const_cast<Ty*>(a), sizeof(Ty), true, true, RA);                                       \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                 \
    }                                                                                             \
    Ty __tsan_atomic##B##_exchange(volatile Ty* a, Ty v, int)                                     \
    {                                                                                             \
        access(const_cast<Ty*>(a), sizeof(Ty), true, true, RA);                                       \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                       \
    }                                                                                             \
    Ty __tsan_atomic##B##_fetch_add(volatile Ty* a, Ty v, int)                                    \
    {                                                                                             \
        access(const_cast<Ty*>(a), sizeof(Ty), true, true, RA);                                       \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                        \
    }                                                                                             \
    Ty __tsan_atomic##B##_fetch_sub(volatile Ty* a, Ty v, int)                                    \
    {                                                                                             \
        access(const_cast<Ty*>(a), sizeof(Ty), true, true, RA);                                       \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                        \
    }                                                                                             \
    Ty __tsan_atomic##B##_fetch_or(volatile Ty* a, Ty v, int)                                     \
    {                                                                                             \
        access(const_cast<Ty*>(a), sizeof(Ty), true, true, RA);                                       \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                         \
    }                                                                                             \
    Ty __tsan_atomic##B##_fetch_and(volatile Ty* a, Ty v, int)                                    \
    {                                                                                             \
        access(const_cast<Ty*>(a), sizeof(Ty), true, true, RA);                                       \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                        \
    }                                                                                             \
    int __tsan_atomic##B##_compare_exchange_strong(volatile Ty* a, Ty* c, Ty v, int, int)         \
    {                                                                                             \
        access(const_cast<Ty*>(a), sizeof(Ty), true, true, RA);                                       \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);   \
    }                                                                                             \
    int __tsan_atomic##B##_compare_exchange_weak(volatile Ty* a, Ty* c, Ty v, int, int)           \
    {                                                                                             \
        access(const_cast<Ty*>(a), sizeof(Ty), true, true, RA);                                       \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);   \
    }                                                                                             \
    Ty __tsan_atomic##B##_compare_exchange_val(volatile Ty* a, Ty c, Ty v, int, int)              \
    {                                                                                             \
        access(const_cast<Ty*>(a), sizeof(Ty), true, true, RA);                                       \
        __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);         \
        return c;                                                                                 \
    }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void* mc_memcpy(void* d, const void* s, std::size_t n)
{
    if(n) {
        access(s, n, false, false, RA);
        access(d, n, true, false, RA);
    }
    return memmove(d, s, n);
}
void* mc_memmove(void* d, const void* s, std::size_t n)
{
    if(n) {
        access(s, n, false, false, RA);
        access(d, n, true, false, RA);
    }
    return memmove(d, s, n);
}

void* mc_memset(void* d, int c, std::size_t n)
{
    if(n) access(d, n, true, false, RA);
    return memset(d, c, n);
}
#endif
}

#ifdef MC_OMP_TSAN
#include <new>
// Memory released inside a parallel region is only reused after it, so that two threads never share an
// address by accident.
void* operator new(std::size_t n)
{
    void* p = std::malloc(n < 16 ? 16 : n);
    if(!p) throw std::bad_alloc();
    return p;
}
void operator delete(void* p) noexcept
{
    if(in_region && team > 1 && p) {
        *static_cast<void**>(p) = quarantine;
        quarantine              = p;
    } else
        std::free(p);
}
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
#endif
