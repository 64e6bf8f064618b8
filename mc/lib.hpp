// Bridge between the code under test (public interface only) and the reference model.
#ifndef LIB_HPP
#define LIB_HPP
#include "enumr.hpp"
#ifdef MC_MODULE
#include <array>
#include <functional>
#include <iomanip>
#include <sstream>
#include <string_view>
#include <tuple>
import ipaddress;
#else
#include <ipaddress/ipaddress.hpp>
#endif

namespace ip = ipaddress;
using ip::error_code;
using ip::ipv4_address;
using ip::ipv6_address;
using ip::ip_address;
using ip::ipv4_network;
using ip::ipv6_network;
using ip::ip_network;
using ip::uint128_t;
using ip::ip_version;
using ip::format;
using ref::u128;

inline u128 R(const uint128_t& v) { return ref::mk(v.upper(), v.lower()); }
inline uint128_t L(u128 v) { return uint128_t(ref::hi(v), ref::lo(v)); }

inline u128 value_of(const ipv4_address& a) { return a.to_uint(); }
inline u128 value_of(const ipv6_address& a) { return R(a.to_uint()); }
inline u128 value_of(const ip_address& a) { return a.version() == ip_version::V4 ? value_of(a.v4().value()) : value_of(a.v6().value()); }

inline ref::addr to_ref(const ipv4_address& a) { return ref::addr(4, a.to_uint()); }
inline ref::addr to_ref(const ipv6_address& a) { return ref::addr(6, R(a.to_uint()), a.get_scope_id().get_string()); }
inline ref::addr to_ref(const ip_address& a) { return a.version() == ip_version::V4 ? to_ref(a.v4().value()) : to_ref(a.v6().value()); }
inline ref::net to_ref(const ipv4_network& n) { return ref::net(4, value_of(n.network_address()), int(n.prefixlen())); }
inline ref::net to_ref(const ipv6_network& n) { const ref::addr a = to_ref(n.network_address()); return ref::net(6, a.value, int(n.prefixlen()), a.scope); }
inline ref::net to_ref(const ip_network& n) { return n.version() == ip_version::V4 ? to_ref(n.v4().value()) : to_ref(n.v6().value()); }

inline ipv4_address lib4(uint32_t v) { return ipv4_address::from_uint(v); }
inline ipv6_address lib6(u128 v) { return ipv6_address::from_uint(L(v)); }
inline ipv6_address lib6(u128 v, const std::string& scope) {
    ipv6_address a = lib6(v);
    if (!scope.empty()) { error_code e = error_code::no_error; a.set_scope_id(scope, e); }
    return a;
}
inline ip_address liba(const ref::addr& a) { return a.version == 4 ? ip_address(lib4(uint32_t(a.value))) : ip_address(lib6(a.value, a.scope)); }

inline std::string S(const ref::addr& a) { return ref::fmt(a, 2); }
inline std::string S(const ref::net& n) { return ref::fmt(n, 2); }
inline std::string S(const ipv4_address& a) { return S(to_ref(a)); }
inline std::string S(const ipv6_address& a) { return S(to_ref(a)); }
inline std::string S(const ip_address& a) { return S(to_ref(a)); }
inline std::string S(error_code e) { return "code " + mc::num(unsigned(e)); }
inline std::string Q(const std::string& s) { return "'" + mc::esc(s) + "'"; }
inline std::string B(bool b) { return b ? "true" : "false"; }

template <int V> struct T;
template <> struct T<4> {
    typedef ipv4_address address; typedef ipv4_network network; enum { W = 32, version = 4 };
    static address make(u128 v) { return lib4(uint32_t(v)); }
    static uint32_t uint(u128 v) { return uint32_t(v); }
};
template <> struct T<6> {
    typedef ipv6_address address; typedef ipv6_network network; enum { W = 128, version = 6 };
    static address make(u128 v) { return lib6(v); }
    static uint128_t uint(u128 v) { return L(v); }
};
inline u128 U(uint32_t v) { return v; }
inline u128 U(const uint128_t& v) { return R(v); }

// A text handed over as a view of an exact-size heap block without terminator, where the language
// has views, so that an out-of-bounds read is visible to a memory monitor.
template <typename Ch>
struct Block {
    Ch* p; size_t n;
    explicit Block(const std::basic_string<Ch>& s) : p(static_cast<Ch*>(std::malloc(s.size() ? s.size() * sizeof(Ch) : 1))), n(s.size()) { if (n) std::memcpy(p, s.data(), n * sizeof(Ch)); }
    ~Block() { std::free(p); }
private:
    Block(const Block&);
    Block& operator=(const Block&);
};

template <typename A, typename Ch>
A parse_code(const std::basic_string<Ch>& s, error_code& e) {
#if defined(MC_MONITOR) && __cplusplus >= 201703L
    const Block<Ch> b(s);
    return A::parse(std::basic_string_view<Ch>(b.p, b.n), e);
#else
    return A::parse(s, e);
#endif
}
template <typename N, typename Ch>
N parse_net_code(const std::basic_string<Ch>& s, bool strict, error_code& e) {
#if defined(MC_MONITOR) && __cplusplus >= 201703L
    const Block<Ch> b(s);
    return N::parse(std::basic_string_view<Ch>(b.p, b.n), e, strict);
#else
    return N::parse(s, e, strict);
#endif
}

#endif // LIB_HPP
