// Driver translation unit for the components: each method behind a function of its own, so that it is analysed with
// everything it calls inlined, for any state of its object.
#include <nudb/nudb.hpp>
#include <new>

namespace vp {

class file
{
    int fd_;
public:
    file();
    file(file&&);
    ~file();
    std::uint64_t size(nudb::error_code&) const;
    void read(std::uint64_t, void*, std::size_t, nudb::error_code&);
    void write(std::uint64_t, void const*, std::size_t, nudb::error_code&);
    void sync(nudb::error_code&);
    void trunc(std::uint64_t, nudb::error_code&);
};

class hasher
{
    std::uint64_t salt_;
public:
    explicit hasher(std::uint64_t);
    std::uint64_t operator()(void const*, std::size_t) const;
};

namespace d = nudb::detail;
using reader = d::bulk_reader<file>;
using writer = d::bulk_writer<file>;

// bulk I/O
void m_reader(void* p, file& f, std::uint64_t offset, std::uint64_t last, std::size_t n) { new(p) reader(f, offset, last, n); }
void m_reader_prepare(reader& r, std::size_t needed, d::istream* out, nudb::error_code& ec) { new(out) d::istream(r.prepare(needed, ec)); }
std::uint64_t m_reader_offset(reader const& r) { return r.offset(); }
bool m_reader_eof(reader const& r) { return r.eof(); }
void m_writer(void* p, file& f, std::uint64_t offset, std::size_t n) { new(p) writer(f, offset, n); }
void m_writer_prepare(writer& w, std::size_t needed, d::ostream* out, nudb::error_code& ec) { new(out) d::ostream(w.prepare(needed, ec)); }
std::uint64_t m_writer_offset(writer const& w) { return w.offset(); }
std::uint64_t m_writer_size(writer& w) { return w.size(); }
void m_writer_flush(writer& w, nudb::error_code& ec) { w.flush(ec); }

// memory
void m_arena(void* p, char const* label) { new(p) d::arena(label); }
std::uint8_t* m_arena_alloc(d::arena& a, std::size_t n) { return a.alloc(n); }
void m_arena_clear(d::arena& a) { a.clear(); }
void m_arena_destroy(d::arena& a) { a.~arena_t(); }
void m_arena_hint(d::arena& a, std::size_t n) { a.hint(n); }
void m_arena_activity(d::arena& a) { a.periodic_activity(); }
void m_arena_swap(d::arena& a, d::arena& b) { using std::swap; swap(a, b); }
void m_arena_move(void* p, d::arena& a) { new(p) d::arena(std::move(a)); }

// search
std::uint64_t m_bucket_lower(d::bucket const& b, std::uint64_t h) { return b.lower_bound(h); }

} // vp
