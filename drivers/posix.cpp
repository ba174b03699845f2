// Driver: every member of the POSIX file class, down to the system calls.
#include <nudb/nudb.hpp>
#include <new>

namespace vp {
using nudb::posix_file;
void m_default(void* p) { ::new(p) posix_file; }
void m_move(void* p, posix_file& o) { ::new(p) posix_file(static_cast<posix_file&&>(o)); }
void m_assign(posix_file& f, posix_file& o) { f = static_cast<posix_file&&>(o); }
void m_dtor(posix_file& f) { f.~posix_file(); }
bool m_is_open(posix_file const& f) { return f.is_open(); }
void m_close(posix_file& f) { f.close(); }
void m_create(posix_file& f, nudb::file_mode m, nudb::path_type const& p, nudb::error_code& ec) { f.create(m, p, ec); }
void m_open(posix_file& f, nudb::file_mode m, nudb::path_type const& p, nudb::error_code& ec) { f.open(m, p, ec); }
void m_erase(nudb::path_type const& p, nudb::error_code& ec) { posix_file::erase(p, ec); }
std::uint64_t m_size(posix_file const& f, nudb::error_code& ec) { return f.size(ec); }
void m_read(posix_file& f, std::uint64_t o, void* b, std::size_t n, nudb::error_code& ec) { f.read(o, b, n, ec); }
void m_write(posix_file& f, std::uint64_t o, void const* b, std::size_t n, nudb::error_code& ec) { f.write(o, b, n, ec); }
void m_sync(posix_file& f, nudb::error_code& ec) { f.sync(ec); }
void m_trunc(posix_file& f, std::uint64_t n, nudb::error_code& ec) { f.trunc(n, ec); }
void m_keep(nudb::error e, nudb::error& o) { o = e; }
} // vp
