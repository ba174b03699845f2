// Driver translation unit for the arithmetic of the file format.
#include <nudb/nudb.hpp>

namespace vp {

class hasher
{
    std::uint64_t salt_;
public:
    explicit hasher(std::uint64_t);
    std::uint64_t operator()(void const*, std::size_t) const;
};

namespace d = nudb::detail;
using buckets = decltype(d::key_file_header::buckets);

std::uint64_t m_ceil_pow2(buckets x) { return d::ceil_pow2(x); }

} // vp
