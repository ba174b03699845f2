// Driver translation unit for the constructors: what each leaves in its object.
#include <nudb/nudb.hpp>
#include <new>

namespace vp {

class file
{
    int fd_;
public:
    file();
    file(file&&);
    ~file();
    file& operator=(file&&);
    bool is_open() const;
    void close();
    void create(nudb::file_mode, nudb::path_type const&, nudb::error_code&);
    void open(nudb::file_mode, nudb::path_type const&, nudb::error_code&);
    static void erase(nudb::path_type const&, nudb::error_code&);
    std::uint64_t size(nudb::error_code&) const;
    void read(std::uint64_t, void*, std::size_t, nudb::error_code&);
    void write(std::uint64_t, void const*, std::size_t, nudb::error_code&);
    void sync(nudb::error_code&);
    void trunc(std::uint64_t, nudb::error_code&);
};

class hasher
{
    std::uint64_t salt_;
public:
    explicit hasher(std::uint64_t);
    std::uint64_t operator()(void const*, std::size_t) const;
};

namespace d = nudb::detail;
using store = nudb::basic_store<hasher, file>;
using reader = d::bulk_reader<file>;
using writer = d::bulk_writer<file>;

class base : public d::store_base
{
    void flush() override;
};

void m_store(void* p, nudb::context& c) { new(p) store(c); }
void m_store_own(void* p) { new(p) store; }
void m_store_base(void* p) { new(p) base; }
void m_context(void* p) { new(p) nudb::context; }
void m_gentex(void* p) { new(p) d::gentex; }
void m_arena(void* p, char const* label) { new(p) d::arena(label); }
void m_buffer(void* p) { new(p) d::buffer; }
void m_buffer_n(void* p, std::size_t n) { new(p) d::buffer(n); }
void m_pool(void* p, char const* label) { new(p) d::pool(0, label); }
void m_cache(void* p, nudb::nsize_t k, nudb::nsize_t b, char const* label) { new(p) d::cache(k, b, label); }
void m_reader(void* p, file& f, std::uint64_t offset, std::uint64_t last, std::size_t n) { new(p) reader(f, offset, last, n); }
void m_writer(void* p, file& f, std::uint64_t offset, std::size_t n) { new(p) writer(f, offset, n); }
void m_bucket(void* p, nudb::nsize_t n, void* q) { new(p) d::bucket(n, q); }
void m_bucket_empty(void* p, nudb::nsize_t n, void* q) { new(p) d::bucket(n, q, d::empty); }
void m_istream(void* p, void const* q, std::size_t n) { new(p) d::istream(q, n); }
void m_ostream(void* p, void* q, std::size_t n) { new(p) d::ostream(q, n); }
void m_verify_info(void* p) { new(p) nudb::verify_info; }
void m_xxhasher(void* p, std::uint64_t s) { new(p) nudb::xxhasher(s); }
void m_posix(void* p) { new(p) nudb::posix_file; }

} // vp
