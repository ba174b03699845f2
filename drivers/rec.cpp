// Driver translation unit for the on-disk records: the bucket codec and the header codecs, each method behind a function of its own.
#include <nudb/nudb.hpp>
#include <new>

namespace vp {

class file
{
    int fd_;
public:
    file();
    file(file&&);
    ~file();
    std::uint64_t size(nudb::error_code&) const;
    void read(std::uint64_t, void*, std::size_t, nudb::error_code&);
    void write(std::uint64_t, void const*, std::size_t, nudb::error_code&);
    void sync(nudb::error_code&);
    void trunc(std::uint64_t, nudb::error_code&);
};

class hasher
{
    std::uint64_t salt_;
public:
    explicit hasher(std::uint64_t);
    std::uint64_t operator()(void const*, std::size_t) const;
};

namespace d = nudb::detail;
using u64 = std::uint64_t;
using reader = d::bulk_reader<file>;
using writer = d::bulk_writer<file>;
using entry = d::bucket::value_type;

u64 m_entry_offset(entry const& e) { return e.offset; }
u64 m_entry_size(entry const& e) { return e.size; }
u64 m_entry_hash(entry const& e) { return e.hash; }
u64 m_bucket_block(d::bucket const& b) { return b.block_size(); }
u64 m_bucket_size(d::bucket const& b) { return b.size(); }
u64 m_bucket_spill(d::bucket const& b) { return b.spill(); }
u64 m_bucket_actual(d::bucket const& b) { return b.actual_size(); }
bool m_bucket_empty(d::bucket const& b) { return b.empty(); }
bool m_bucket_full(d::bucket const& b) { return b.full(); }

void m_bucket(void* o, std::size_t block_size, void* p) { new(o) d::bucket(block_size, p); }
void m_bucket_new(void* o, std::size_t block_size, void* p) { new(o) d::bucket(block_size, p, d::empty); }
void m_bucket_at(d::bucket const& b, std::size_t i, entry* out) { new(out) entry(b.at(i)); }
void m_bucket_index(d::bucket const& b, std::size_t i, entry* out) { new(out) entry(b[i]); }
void m_bucket_insert(d::bucket& b, u64 offset, std::size_t size, u64 h) { b.insert(offset, size, h); }
void m_bucket_erase(d::bucket& b, std::size_t i) { b.erase(i); }
void m_bucket_setspill(d::bucket& b, u64 offset) { b.spill(offset); }
void m_bucket_clear(d::bucket& b) { b.clear(); }
void m_bucket_read(d::bucket& b, file& f, u64 offset, nudb::error_code& ec) { b.read(f, offset, ec); }
void m_bucket_readc(d::bucket& b, reader& r, nudb::error_code& ec) { b.read(r, ec); }
void m_bucket_writec(d::bucket const& b, d::ostream& os) { b.write(os); }
void m_bucket_write(d::bucket const& b, file& f, u64 offset, nudb::error_code& ec) { b.write(f, offset, ec); }
void m_maybe_spill(d::bucket& b, writer& w, nudb::error_code& ec) { d::maybe_spill(b, w, ec); }

u64 m_bsize(std::size_t capacity) { return d::bucket_size(capacity); }
u64 m_bcap(std::size_t block_size) { return d::bucket_capacity(block_size); }
u64 m_vsize(std::size_t size, std::size_t key_size) { return d::value_size(size, key_size); }

// headers
void m_dat_read(d::istream& is, d::dat_file_header& h) { d::read(is, h); }
void m_dat_readf(file& f, d::dat_file_header& h, nudb::error_code& ec) { d::read(f, h, ec); }
void m_dat_write(d::ostream& os, d::dat_file_header const& h) { d::write(os, h); }
void m_dat_writef(file& f, d::dat_file_header const& h, nudb::error_code& ec) { d::write(f, h, ec); }
void m_key_read(d::istream& is, u64 size, d::key_file_header& h) { d::read(is, size, h); }
void m_key_readf(file& f, d::key_file_header& h, nudb::error_code& ec) { d::read(f, h, ec); }
void m_key_write(d::ostream& os, d::key_file_header const& h) { d::write(os, h); }
void m_key_writef(file& f, d::key_file_header const& h, nudb::error_code& ec) { d::write(f, h, ec); }
void m_log_read(d::istream& is, d::log_file_header& h) { d::read(is, h); }
void m_log_readf(file& f, d::log_file_header& h, nudb::error_code& ec) { d::read(f, h, ec); }
void m_log_write(d::ostream& os, d::log_file_header const& h) { d::write(os, h); }
void m_log_writef(file& f, d::log_file_header const& h, nudb::error_code& ec) { d::write(f, h, ec); }

void m_dat_verify(d::dat_file_header const& h, nudb::error_code& ec) { d::verify(h, ec); }
void m_key_verify(d::key_file_header const& h, nudb::error_code& ec) { d::verify<hasher>(h, ec); }
void m_log_verify(d::log_file_header const& h, nudb::error_code& ec) { d::verify<hasher>(h, ec); }
void m_dk_verify(d::dat_file_header const& d_, d::key_file_header const& k, nudb::error_code& ec) { d::verify<hasher>(d_, k, ec); }
void m_kl_verify(d::key_file_header const& k, d::log_file_header const& l, nudb::error_code& ec) { d::verify<hasher>(k, l, ec); }

u64 m_hash(void const* key, std::size_t n, u64 salt) { return d::hash<hasher>(key, n, salt); }
u64 m_hash2(void const* key, std::size_t n, hasher const& h) { return d::hash(key, n, h); }
u64 m_pepper(u64 salt) { return d::pepper<hasher>(salt); }

} // vp
