// The entry points instantiated with the library's own File and Hasher; only checked for being well formed.
#include <nudb/nudb.hpp>

namespace vp {
struct visit_cb { int x; void operator()(void const*, std::size_t, void const*, std::size_t, nudb::error_code&) const; };
struct progress { int x; void operator()(std::uint64_t, std::uint64_t) const; };
struct fetch_cb { int x; void operator()(void const*, std::size_t) const; };
} // vp

namespace nudb {
template class basic_store<xxhasher, native_file>;
template void basic_store<xxhasher, native_file>::open<>(path_type const&, path_type const&, path_type const&, error_code&);
template void basic_store<xxhasher, native_file>::fetch<vp::fetch_cb const&>(void const*, vp::fetch_cb const&, error_code&);
template void recover<xxhasher, native_file>(path_type const&, path_type const&, path_type const&, error_code&);
template void rekey<xxhasher, native_file, vp::progress const&>(path_type const&, path_type const&, path_type const&, std::size_t, float, std::uint64_t, std::size_t, error_code&, vp::progress const&);
template void create<xxhasher, native_file>(path_type const&, path_type const&, path_type const&, std::uint64_t, std::uint64_t, std::uint64_t, nsize_t, nsize_t, float, error_code&);
template void visit<vp::visit_cb const&, vp::progress const&>(path_type const&, vp::visit_cb const&, vp::progress const&, error_code&);
template void verify<xxhasher, vp::progress const&>(verify_info&, path_type const&, path_type const&, std::size_t, vp::progress const&, error_code&);
}
