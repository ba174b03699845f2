// Driver translation unit for the default hash function and the functions that apply a hash function to keys and salts.
#include <nudb/nudb.hpp>

namespace vp {

class hasher
{
    std::uint64_t salt_;
public:
    explicit hasher(std::uint64_t);
    std::uint64_t operator()(void const*, std::size_t) const;
};

namespace d = nudb::detail;
using u64 = std::uint64_t;

u64 m_hash(u64 seed, void const* data, std::size_t bytes)
{
    nudb::xxhasher h(seed);
    return h(data, bytes);
}
u64 m_key_salt(void const* key, std::size_t size, u64 salt) { return d::hash<hasher>(key, size, salt); }
u64 m_key_hasher(void const* key, std::size_t size, hasher const& h) { return d::hash(key, size, h); }
u64 m_pepper(u64 salt) { return d::pepper<hasher>(salt); }

} // vp
