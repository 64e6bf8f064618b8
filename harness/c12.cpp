// C12: hosts sequences.
#include "seq.hpp"

static Def hosts_of(int V, u128 net, int prefix) {
    const int W = ref::width(V);
    Def d;
    d.width = W; d.hosts = true; d.version = V; d.prefix = 0; d.step = 1; d.whole = false;
    const u128 size = ref::ones(W - prefix); // last - first
    if (prefix >= W - 1) { d.first = net; d.count = size + 1; }
    else if (V == 4) { d.first = net + 1; d.count = size - 1; }
    else { d.first = net + 1; d.count = size; }
    return d;
}
template <int V> static void one(mc::Ctx& c, u128 base, int prefix, bool scoped) {
    error_code e = error_code::no_error;
    const u128 a = base & ref::netmask(V, prefix);
    c.state(mc::comb(mc::comb(ref::hi(a), ref::lo(a)), prefix * 2 + scoped));
    const typename T<V>::network n = T<V>::network::from_address(T<V>::make(a), e, size_t(prefix));
    const Def d = hosts_of(V, a, prefix);
    const std::string what = n.to_string() + " hosts";
    const u128 walk = u128(c.bound(4096, 65536, 64));
    judge<HostOf>(c, n.hosts(), d, what, walk, 16);
    judge<HostOf>(c, ip_network(n).hosts(), d, "ip_network " + what, walk, 16);
    if (c.wants_sample()) c.sample(what + ": " + ref::show(d.count) + " from " + S(d.host(0)));
}
static void scoped6(mc::Ctx& c, u128 base, int prefix) {
    error_code e = error_code::no_error;
    const u128 a = base & ref::netmask(6, prefix);
    if (a != base) return;
    const ipv6_network n = ipv6_network::from_address(lib6(a, "eth0"), e, size_t(prefix));
    const Def d = hosts_of(6, a, prefix);
    ipv6_network plain = ipv6_network::from_address(lib6(a), e, size_t(prefix));
    // the number and numeric values do not depend on the scope id
    const auto s = n.hosts(), p = plain.hosts();
    MC_CHECK(U(s.size()) == U(p.size()) && s.empty() == p.empty() && value_of(s.front()) == d.first && value_of(s.back()) == d.first + d.last(), n.to_string() + " hosts differ from those without the scope id");
    uint64_t k = 0;
    for (auto it = s.begin(); it != s.end() && k < 300; ++it, ++k) MC_CHECK(value_of(*it) == d.first + k, n.to_string() + " host " + mc::num(k) + " is " + S(*it));
    MC_CHECK(k == 300 || u128(k) == d.count, n.to_string() + " iteration yields " + mc::num(k) + " elements");
}
static std::vector<u128> bases(int V) {
    std::vector<u128> b;
    const u128 all = ref::all(V);
    b.push_back(0); b.push_back(all); b.push_back(all >> 1); b.push_back((all >> 1) + 1);
    b.push_back(V == 4 ? u128(0xC0A80180) : ref::mk(0x20010db800000000ull, 0));
    if (V == 6) { b.push_back(ref::mk(1, 0)); b.push_back(ref::mk(0, ~0ull)); b.push_back(ref::mk(0x5555555555555555ull, 0xFFFFFFFF00000000ull)); }
    else { b.push_back(0x0AFFFF00); b.push_back(0x0000FFFF); }
    return b;
}
MC_SPACE(v4, "every prefix length over base addresses at the bottom, middle and top: complete iteration up to 2^12 (thorough 2^16) elements, both ends and boundary indices beyond; typed and version-agnostic") {
    const std::vector<u128> b = bases(4);
    for (size_t i = 0; i < b.size(); ++i) for (int p = 0; p <= 32; ++p) if (c.take()) one<4>(c, b[i], p, false);
}
MC_SPACE(v6, "the same for IPv6") {
    const std::vector<u128> b = bases(6);
    for (size_t i = 0; i < b.size(); ++i) for (int p = 0; p <= 128; ++p) if (c.take()) one<6>(c, b[i], p, false);
}
MC_SPACE(small4, "every network of prefix 26 and longer in three /24 blocks, the last at the top of the space") {
    static const uint32_t o[] = { 0, 0x0A0000FF & ~255u, 0xFFFFFF00 };
    for (int k = 0; k < 3; ++k) for (int p = 26; p <= 32; ++p) for (int i = 0; i < 256; i += 1 << (32 - p)) if (c.take()) one<4>(c, o[k] + uint32_t(i), p, false);
}
MC_SPACE(small6, "every network of prefix 122 and longer in blocks of 256 addresses, including the top of the space and a 64-bit boundary") {
    const u128 o[] = { 0, ~u128(0) - 255, ref::mk(7, ~0ull) & ~u128(255), ref::mk(8, 0) };
    for (int k = 0; k < 4; ++k) for (int p = 122; p <= 128; ++p) for (int i = 0; i < 256; i += 1 << (128 - p)) if (c.take()) one<6>(c, o[k] + u128(i), p, false);
}
MC_SPACE(scoped, "networks with a scope id have the same hosts numerically") {
    const std::vector<u128> b = bases(6);
    for (size_t i = 0; i < b.size(); ++i) for (int p = 0; p <= 128; ++p) if (c.take()) { c.fresh(); scoped6(c, b[i], p); }
}
int main(int argc, char** argv) { return mc::main(argc, argv); }
