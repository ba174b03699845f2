// Driver translation unit: instantiates every template of the library with probe
// types whose members are declared and never defined, so each use of a File, Hasher,
// callback or progress object stays visible as an opaque call in the IR.
#include <nudb/nudb.hpp>

namespace vp {

struct arg { int x; };

class file
{
    int fd_;
public:
    file();
    explicit file(arg const&);
    file(file&&);
    file& operator=(file&&);
    ~file();
    bool is_open() const;
    void close();
    void create(nudb::file_mode, nudb::path_type const&, nudb::error_code&);
    void open(nudb::file_mode, nudb::path_type const&, nudb::error_code&);
    static void erase(nudb::path_type const&, nudb::error_code&);
    std::uint64_t size(nudb::error_code&) const;
    void read(std::uint64_t, void*, std::size_t, nudb::error_code&);
    void write(std::uint64_t, void const*, std::size_t, nudb::error_code&);
    void sync(nudb::error_code&);
    void trunc(std::uint64_t, nudb::error_code&);
};

class hasher
{
    std::uint64_t salt_;
public:
    explicit hasher(std::uint64_t);
    std::uint64_t operator()(void const*, std::size_t) const;
};

struct fetch_cb { int x; void operator()(void const*, std::size_t) const; };
struct visit_cb { int x; void operator()(void const*, std::size_t, void const*, std::size_t, nudb::error_code&) const; };
struct progress { int x; void operator()(std::uint64_t, std::uint64_t) const; };

} // vp

namespace nudb {
template class basic_store<vp::hasher, vp::file>;
template void basic_store<vp::hasher, vp::file>::open<vp::arg const&>(path_type const&, path_type const&, path_type const&, error_code&, vp::arg const&);
template void basic_store<vp::hasher, vp::file>::fetch<vp::fetch_cb const&>(void const*, vp::fetch_cb const&, error_code&);
template void recover<vp::hasher, vp::file, vp::arg const&>(path_type const&, path_type const&, path_type const&, error_code&, vp::arg const&);
template void rekey<vp::hasher, vp::file, vp::progress const&, vp::arg const&>(path_type const&, path_type const&, path_type const&, std::size_t, float, std::uint64_t, std::size_t, error_code&, vp::progress const&, vp::arg const&);
template void create<vp::hasher, vp::file, vp::arg const&>(path_type const&, path_type const&, path_type const&, std::uint64_t, std::uint64_t, std::uint64_t, nsize_t, nsize_t, float, error_code&, vp::arg const&);
template void create<vp::hasher, vp::file>(path_type const&, path_type const&, path_type const&, std::uint64_t, std::uint64_t, nsize_t, nsize_t, float, error_code&);
template void visit<vp::visit_cb const&, vp::progress const&>(path_type const&, vp::visit_cb const&, vp::progress const&, error_code&);
template void verify<vp::hasher, vp::progress const&>(verify_info&, path_type const&, path_type const&, std::size_t, vp::progress const&, error_code&);
}
