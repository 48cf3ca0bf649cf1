// A threadinfo for the tree whose allocator and reclaimer are monitors.
// Reclamation is as eager as the epoch rule permits: a block retired at time
// t is freed at the first moment when every thread that was inside an
// operation at t has left that operation.
#pragma once
#include "rt.h"
#include "kvthread.hh"     // for memtag/threadcounter enums only
#include <deque>
#include <new>

class MonitorTI {
  public:
    struct mrcu_callback {
        virtual ~mrcu_callback() {}
        virtual void operator()(MonitorTI& ti) = 0;
    };
    int id = 0;
    bool in_op = false;

    struct spin { void operator()() const { rt::spin_hint(); } template <typename V> void operator()(V) const { rt::spin_hint(); } };
    spin accounting_relax_fence(threadcounter) { return spin(); }
    spin stable_fence() { return spin(); }
    spin lock_fence(threadcounter) { return spin(); }
    void mark(threadcounter ci) { ++marks[ci < MARKS ? ci : MARKS - 1]; }
    void mark(threadcounter ci, int64_t d) { marks[ci < MARKS ? ci : MARKS - 1] += d; }
    bool has_counter(threadcounter) const { return false; }
    uint64_t counter(threadcounter) const { return 0; }
    kvtimestamp_t operation_timestamp() const { return 2; }
    kvtimestamp_t update_timestamp() const { return 2; }
    kvtimestamp_t update_timestamp(kvtimestamp_t) const { return 2; }
    template <typename N> void observe_phantoms(N*) {}

    static int kind_of(memtag tag) {
        switch ((int) tag & ~0xff) {
        case memtag_masstree_leaf: return rt::K_LEAF;
        case memtag_masstree_internode: return rt::K_INTERNODE;
        case memtag_masstree_ksuffixes: return rt::K_KSUF;
        case memtag_masstree_gc: return rt::K_GC;
        case memtag_value: return rt::K_VALUE;
        default: return rt::K_OTHER;
        }
    }
    void* allocate(size_t sz, memtag tag) { return rt::arena_alloc(sz, kind_of(tag), tag, false); }
    void deallocate(void* p, size_t sz, memtag tag) { rt::arena_free(p, sz, tag, false, false); }
    void deallocate_rcu(void* p, size_t sz, memtag tag) { retire(p, sz, tag, false); }
    void* pool_allocate(size_t sz, memtag tag) { return rt::arena_alloc(sz, kind_of(tag), tag, true); }
    void pool_deallocate(void* p, size_t sz, memtag tag) { rt::arena_free(p, sz, tag, true, false); }
    void pool_deallocate_rcu(void* p, size_t sz, memtag tag) { retire(p, sz, tag, true); }
    void rcu_register(mrcu_callback* cb) {
        queue[id].push_back(Pend{cb, 0, 0, false, true, mask});
        release_ready();
    }

    // operation brackets
    void op_begin() { in_op = true; mask |= 1u << id; }
    void op_end() {
        in_op = false; mask &= ~(1u << id);
        for (auto& q : queue) for (auto& p : q) p.waitmask &= ~(1u << id);
        release_ready();
    }
    // run one callback whose turn has come (of this thread, or of any thread
    // once all are idle); true if one ran
    bool run_callback(bool any = false) {
        for (int o = 0; o < MAXTHR; ++o)
            if ((any || o == id) && !queue[o].empty() && queue[o].front().cb && !queue[o].front().waitmask) {
                mrcu_callback* cb = static_cast<mrcu_callback*>(queue[o].front().p);
                queue[o].pop_front();
                op_begin(); (*cb)(*this); op_end();
                ++callbacks_run;
                return true;
            }
        return false;
    }
    static bool quiet() { for (auto& q : queue) if (!q.empty()) return false; return true; }

    // Shared by all threads of an execution: one queue per thread, drained in
    // order, as each thread's limbo list is.
    struct Pend { void* p; size_t sz; int tag; bool pool, cb; uint32_t waitmask; };
    enum { MAXTHR = 8 };
    static std::deque<Pend> queue[MAXTHR];
    static uint32_t mask;
    static uint64_t callbacks_run, released;
    enum { MARKS = 64 };
    static uint64_t marks[MARKS];
    static void reset() { for (auto& q : queue) q.clear(); mask = 0; }
  private:
    void retire(void* p, size_t sz, memtag tag, bool pool) {
        rt::arena_retire(p, sz, tag, pool);
        queue[id].push_back(Pend{p, sz, (int) tag, pool, false, mask});
        release_ready();
    }
    static void release_ready() {
        for (auto& q : queue)
            while (!q.empty() && !q.front().waitmask && !q.front().cb) {
                Pend x = q.front(); q.pop_front(); ++released;
                rt::arena_free(x.p, x.sz, x.tag, x.pool, true);
            }
    }
};
#ifdef MONITOR_TI_IMPL
std::deque<MonitorTI::Pend> MonitorTI::queue[MonitorTI::MAXTHR];
uint32_t MonitorTI::mask;
uint64_t MonitorTI::callbacks_run, MonitorTI::released;
uint64_t MonitorTI::marks[MonitorTI::MARKS];
#endif
