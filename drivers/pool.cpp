// Driver translation unit for the containers, with the arena as an opaque component.
#include <nudb/nudb.hpp>
#include <new>

namespace vp {

namespace d = nudb::detail;
using value = d::pool::value_type;

std::uint64_t m_value_hash(value const& v) { return v.hash; }
std::size_t m_value_size(value const& v) { return v.size; }
void const* m_value_key(value const& v) { return v.key; }
void const* m_value_data(value const& v) { return v.data; }

void m_pool(void* p, std::size_t key_size, char const* label) { new(p) d::pool(key_size, label); }
void m_pool_insert(d::pool& p, std::uint64_t h, void const* key, void const* data, std::size_t size) { p.insert(h, key, data, size); }
void m_pool_find(d::pool& p, void const* key, d::pool::iterator* out) { new(out) d::pool::iterator(p.find(key)); }
bool m_pool_compare(d::pool::compare const& c, value const& l, value const& r) { return c(l, r); }
bool m_pool_empty(d::pool& p) { return p.empty(); }
std::size_t m_pool_size(d::pool& p) { return p.size(); }
std::size_t m_pool_data_size(d::pool& p) { return p.data_size(); }
void m_pool_begin(d::pool& p, d::pool::iterator* out) { new(out) d::pool::iterator(p.begin()); }
void m_pool_end(d::pool& p, d::pool::iterator* out) { new(out) d::pool::iterator(p.end()); }
void m_pool_clear(d::pool& p) { p.clear(); }
void m_pool_activity(d::pool& p) { p.periodic_activity(); }
void m_pool_swap(d::pool& p, d::pool& q) { using std::swap; swap(p, q); }
void m_pool_move(void* p, d::pool& q) { new(p) d::pool(std::move(q)); }

void m_cache(void* p, std::size_t key_size, std::size_t block_size, char const* label) { new(p) d::cache(key_size, block_size, label); }
void m_cache_insert(d::cache& c, std::uint64_t n, d::bucket const& b, d::cache::iterator* out) { new(out) d::cache::iterator(c.insert(n, b)); }
void m_cache_create(d::cache& c, std::uint64_t n, d::bucket* out) { new(out) d::bucket(c.create(n)); }
void m_cache_find(d::cache& c, std::uint64_t n, d::cache::iterator* out) { new(out) d::cache::iterator(c.find(n)); }
void m_cache_deref(d::cache::iterator& i, d::cache::value_type* out) { new(out) d::cache::value_type(*i); }
void m_cache_empty(d::cache& c, bool* out) { *out = c.empty(); }
std::size_t m_cache_size(d::cache& c) { return c.size(); }
void m_cache_begin(d::cache& c, d::cache::iterator* out) { new(out) d::cache::iterator(c.begin()); }
void m_cache_end(d::cache& c, d::cache::iterator* out) { new(out) d::cache::iterator(c.end()); }
void m_cache_reserve(d::cache& c, std::size_t n) { c.reserve(n); }
void m_cache_clear(d::cache& c) { c.clear(); }
void m_cache_activity(d::cache& c) { c.periodic_activity(); }
void m_cache_swap(d::cache& p, d::cache& q) { using std::swap; swap(p, q); }
void m_cache_move(void* p, d::cache& q) { new(p) d::cache(std::move(q)); }

struct shape { std::size_t block, size, actual; };
void m_bucket_members(d::bucket const& b, shape& s) { s.block = b.block_size(); s.size = b.size(); s.actual = b.actual_size(); }
void m_bucket_data(d::bucket const& b, void* p, std::size_t n) { d::ostream os(p, n); b.write(os); }

} // vp
