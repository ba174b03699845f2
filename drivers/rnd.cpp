// Driver translation unit for the generated uids and salts.
#include <nudb/nudb.hpp>

namespace vp {

std::uint64_t m_make_uid() { return nudb::make_uid(); }
std::uint64_t m_make_salt() { return nudb::make_salt(); }

} // vp
