// Driver translation unit for the error codes.
#include <nudb/nudb.hpp>

namespace vp {

class hasher
{
    std::uint64_t salt_;
public:
    explicit hasher(std::uint64_t);
    std::uint64_t operator()(void const*, std::size_t) const;
};

void m_make(nudb::error_code* out, nudb::error e) { new(out) nudb::error_code(make_error_code(e)); }
void m_assign(nudb::error_code& ec, nudb::error e) { ec = e; }
nudb::error_category const* m_category() { return &nudb::nudb_category(); }

} // vp
