// Driver translation unit for the generation counting mutex and the lock object that holds a generation.
#include <nudb/nudb.hpp>
#include <new>

namespace vp {

class hasher
{
    std::uint64_t salt_;
public:
    explicit hasher(std::uint64_t);
    std::uint64_t operator()(void const*, std::size_t) const;
};

namespace d = nudb::detail;
using gentex = d::gentex;

// the lock object over an opaque mutex
class gmutex
{
public:
    std::size_t lock_gen();
    void unlock_gen(std::size_t);
};
using glock = d::genlock<gmutex>;

void m_gen(void* p) { new(p) gentex; }
void m_start(gentex& g) { g.start(); }
void m_finish(gentex& g) { g.finish(); }
std::size_t m_lock(gentex& g) { return g.lock_gen(); }
void m_unlock(gentex& g, std::size_t gen) { g.unlock_gen(gen); }

void m_glock(void* p, gmutex& g) { new(p) glock(g); }
void m_glock_defer(void* p, gmutex& g) { new(p) glock(g, std::defer_lock); }
void m_glock_move(void* p, glock& o) { new(p) glock(std::move(o)); }
void m_glock_assign(glock& l, glock& o) { l = std::move(o); }
void m_glock_lock(glock& l) { l.lock(); }
void m_glock_unlock(glock& l) { l.unlock(); }
void m_glock_dtor(glock& l) { l.~glock(); }
bool m_glock_owns(glock const& l) { return l.owns_lock(); }

} // vp
