// two translation units that use everything, linked together
#include <ipaddress/ipaddress.hpp>
#include <cstdio>
#include <set>
#include <sstream>
using namespace ipaddress;
#if TU == 1
std::string other();
#define NAME mine
#else
#define NAME other
#endif
std::string NAME() {
    error_code e = error_code::no_error;
    std::string s = ipv4_address::parse("10.0.0.1", e).to_string() + ipv6_address::parse("fe80::1", e).to_string() + ip_address::parse("::1", e).to_string() + ipv4_network::parse("10.0.0.0/8", e).to_string() + ip_network::parse("2001:db8::/32", e).to_string();
    s += ipv4_address::from_uint(7).to_string() + ipv6_address::from_uint(uint128_t(1, 7)).to_string();
    const auto& v = ip_version::V6; s += std::to_string(int(v)); // constants odr-used
    const auto& c = error_code::no_error; s += std::to_string(int(c));
    s += ipv4_address::parse("192.168.0.1", e).is_private() ? "p" : "-"; s += ipv6_address::parse("fc00::", e).is_private() ? "p" : "-";
    const auto n = ipv4_network::parse("10.0.0.0/30", e);
    for (const auto& h : n.hosts()) s += h.to_string();
    for (const auto& h : n.subnets(e, 1)) s += h.to_string();
    for (const auto& h : n.address_exclude(ipv4_network::parse("10.0.0.0/32", e), e)) s += h.to_string();
    s += uint128_t(12345).to_string();
    const auto m = std::numeric_limits<uint128_t>::max(); s += m.to_string(); s += std::to_string(std::numeric_limits<uint128_t>::digits);
    std::ostringstream o;
#ifndef IPADDRESS_NO_OVERLOAD_STD
    s += std::to_string(std::hash<ipv4_address>()(ipv4_address::from_uint(7)));
    o << full << ipv6_address::parse("::1", e) << n;
#endif
    return s + o.str();
}
#if TU == 1
int main() { const std::string a = mine(), b = other(); if (a != b) std::printf("%s\n%s\n", a.c_str(), b.c_str()); return a != b; }
#endif
