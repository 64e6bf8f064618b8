// C08: comparison is one consistent total order, equal values hash alike.
#include "lib.hpp"
#include <functional>

template <typename A, typename Z>
static void ordered(mc::Ctx& c, const A& a, const Z& b, int want, const char* what, const std::string& sa, const std::string& sb) {
    const unsigned got = unsigned(a == b) | unsigned(a != b) << 1 | unsigned(a < b) << 2 | unsigned(a <= b) << 3 | unsigned(a > b) << 4 | unsigned(a >= b) << 5;
    const unsigned exp = want == 0 ? (1u | 8 | 32) : want < 0 ? (2u | 4 | 8) : (2u | 16 | 32);
    if (got != exp) {
        static const char* const op[] = { "==", "!=", "<", "<=", ">", ">=" };
        std::string t;
        for (int k = 0; k < 6; ++k) if ((got ^ exp) >> k & 1) t += std::string(" ") + op[k] + " gives " + B(got >> k & 1);
        c.fail(std::string(what) + " " + sa + " and " + sb + ":" + t);
    }
    c.step(6);
#if defined(__cpp_impl_three_way_comparison) && __cplusplus > 201703L && !defined(IPADDRESS_NO_SPACESHIP_OPERATOR)
    const auto o = a <=> b;
    MC_CHECK(want == 0 ? o == 0 : want < 0 ? o < 0 : o > 0, what + " " + sa + " <=> " + sb);
#endif
}
template <typename A>
static void hashed(mc::Ctx& c, const A& a, const A& b, bool equal, const char* what, const std::string& sa) {
    if (!equal) return;
    MC_CHECK(a.hash() == b.hash() && std::hash<A>()(a) == std::hash<A>()(b) && std::hash<A>()(a) == a.hash(), what + std::string(" equal values hash differently: ") + sa);
}
static int cmp(const std::string& a, const std::string& b) { return a < b ? -1 : a == b ? 0 : 1; }
static int cmp(u128 a, u128 b) { return a < b ? -1 : a == b ? 0 : 1; }
static int cmp(const ref::addr& a, const ref::addr& b) { return a < b ? -1 : b < a ? 1 : 0; }
static int cmp(const ref::net& a, const ref::net& b) {
    const int r = cmp(ref::addr(a.version, a.address, a.scope), ref::addr(b.version, b.address, b.scope));
    return r ? r : cmp(ref::netmask(a.version, a.prefix), ref::netmask(b.version, b.prefix));
}
static uint64_t key(const ref::addr& a) { return mc::comb(mc::comb(ref::hi(a.value), ref::lo(a.value)), mc::hash(a.scope, a.version)); }

MC_SPACE(ipv4_pairs, "all ordered pairs of IPv4 values (boundaries, masks, one- and two-bit variations)") {
    const std::vector<uint32_t> p = en::pool4(!c.reduced());
    const uint64_t n = p.size();
    c.range(n * n, 256, [&](uint64_t i) {
        const uint32_t a = p[i / n], b = p[i % n];
        c.fresh();
        const ipv4_address x = lib4(a), y = lib4(b);
        ordered(c, x, y, cmp(u128(a), u128(b)), "ipv4_address", S(x), S(y));
        hashed(c, x, lib4(b), a == b, "ipv4_address", S(x));
    });
}
static std::vector<ref::addr> pool(mc::Ctx& c) {
    std::vector<ref::addr> r;
    static const char* const sc[] = { "", "1", "10", "2", "eth0", "eth1", "Eth0", "ABCDEFGHIJKLMNOP", "ABCDEFGHIJKLMNO", "ABCDEFGHIJKLMNOQ", "~", "!" };
    std::vector<u128> v;
    static const char* const base[] = { "::", "::1", "1::", "fe80::1", "2001:db8::ff00", "::ffff:1.2.3.4", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "0:0:0:1::", "::8000:0:0:0", "7fff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "8000::" };
    for (size_t i = 0; i < sizeof base / sizeof *base; ++i) {
        ref::addr a;
        ref::parse6(ref::widen(base[i]), a);
        v.push_back(a.value);
        if (i == 3 || i == 4) for (int b = 0; b < 128; b += c.thorough() ? 1 : 7) v.push_back(a.value ^ u128(1) << b);
    }
    for (size_t i = 0; i < v.size(); ++i) for (size_t k = 0; k < sizeof sc / sizeof *sc; ++k) if (k < 1 || i < 11 || c.thorough() || k < 3) r.push_back(ref::addr(6, v[i], sc[k]));
    return r;
}
MC_SPACE(ipv6_pairs, "all ordered pairs of IPv6 values (single-bit variations over every byte) with scope ids") {
    const std::vector<ref::addr> p = pool(c);
    std::vector<ipv6_address> l;
    for (size_t i = 0; i < p.size(); ++i) l.push_back(lib6(p[i].value, p[i].scope));
    const uint64_t n = p.size();
    c.range(n * n, 256, [&](uint64_t i) {
        const ref::addr &a = p[i / n], &b = p[i % n];
        c.state(mc::comb(key(a), key(b)));
        const ipv6_address &x = l[i / n], &y = l[i % n];
        ordered(c, x, y, cmp(a, b), "ipv6_address", S(a), S(b));
        hashed(c, x, lib6(b.value, b.scope), a == b, "ipv6_address", S(a));
        if (c.wants_sample()) c.sample(S(a) + " vs " + S(b) + " = " + mc::inum(cmp(a, b)));
    });
}
MC_SPACE(ipv6_values, "all ordered pairs of scope-less IPv6 values (masks, single bits, registry values)") {
    const std::vector<u128> p = en::pool6(c.thorough());
    const uint64_t n = p.size();
    c.range(n * n, 256, [&](uint64_t i) {
        const u128 a = p[i / n], b = p[i % n];
        c.fresh();
        const ipv6_address x = lib6(a), y = lib6(b);
        ordered(c, x, y, cmp(a, b), "ipv6_address", "", ref::show(a) + " " + ref::show(b));
        hashed(c, x, lib6(b), a == b, "ipv6_address", ref::show(a));
    });
}
MC_SPACE(scopes, "all ordered pairs of scope ids (every single character, all words of length 2 and 3 over a small alphabet, lengths up to the maximum)") {
    std::vector<std::string> p(1);
    for (int ch = 33; ch < 127; ++ch) if (!ref::bad_scope_char(char32_t(ch))) p.push_back(std::string(1, char(ch)));
    static const char al[] = "0a9Z~";
    for (int i = 0; i < 5; ++i) for (int j = 0; j < 5; ++j) { p.push_back(std::string(1, al[i]) + al[j]); for (int k = 0; k < 5; ++k) p.push_back(std::string(1, al[i]) + al[j] + al[k]); }
    for (int i = 1; i <= 16; ++i) { p.push_back(std::string(i, 'x')); p.push_back(std::string(i - 1, 'x') + 'y'); p.push_back("4294967295" + std::string(i <= 6 ? i : 6, '0')); }
    const uint64_t n = p.size();
    std::vector<ipv6_address> l;
    for (size_t i = 0; i < n; ++i) l.push_back(lib6(1, p[i]));
    c.range(n * n, 64, [&](uint64_t i) {
        const std::string &a = p[i / n], &b = p[i % n];
        c.state(mc::comb(mc::hash(a), mc::hash(b)));
        ordered(c, l[i / n].get_scope_id(), l[i % n].get_scope_id(), cmp(a, b), "scope", Q(a), Q(b));
        ordered(c, l[i / n], l[i % n], cmp(a, b), "ipv6_address with scope", Q(a), Q(b));
    });
}
MC_SPACE(any_pairs, "all ordered pairs of version-agnostic addresses of both versions, with scope ids; also against typed addresses") {
    std::vector<ref::addr> p;
    const std::vector<ref::addr> q = pool(c);
    for (size_t i = 0; i < q.size(); i += c.thorough() ? 1 : 2) p.push_back(q[i]);
    static const uint32_t f[] = { 0, 1, 2, 0x01020304, 0x04030201, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, 0x00010000, 0xFE800000, 0x20010DB8 };
    for (size_t i = 0; i < sizeof f / sizeof *f; ++i) p.push_back(ref::addr(4, f[i]));
    const uint64_t n = p.size();
    std::vector<ip_address> l;
    for (size_t i = 0; i < n; ++i) l.push_back(liba(p[i]));
    c.range(n * n, 256, [&](uint64_t i) {
        const ref::addr &a = p[i / n], &b = p[i % n];
        c.state(mc::comb(key(a), key(b)));
        ordered(c, l[i / n], l[i % n], cmp(a, b), "ip_address", S(a), S(b));
        hashed(c, l[i / n], liba(b), a == b, "ip_address", S(a));
        if (b.version == 4) ordered(c, l[i / n], ip_address(l[i % n].v4().value()), cmp(a, b), "ip_address against ipv4_address", S(a), S(b));
        else ordered(c, l[i / n], ip_address(l[i % n].v6().value()), cmp(a, b), "ip_address against ipv6_address", S(a), S(b));
    });
}
static std::vector<ref::net> nets(mc::Ctx& c, bool v4, bool v6) {
    std::vector<ref::net> r;
    static const uint32_t f[] = { 0, 0x0A000000, 0x0A010203, 0x80000000, 0xC0A80000, 0xFFFFFFFF, 0x01000000 };
    if (v4) for (size_t i = 0; i < sizeof f / sizeof *f; ++i) for (int k = 0; k <= 32; ++k) r.push_back(ref::net(4, f[i] & ref::netmask(4, k), k));
    static const char* const g[] = { "::", "2001:db8::", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "fe80::1" };
    if (v6) for (size_t i = 0; i < 4; ++i) for (int k = 0; k <= 128; k += (c.thorough() || (v6 && !v4)) ? 1 : 5) {
        ref::addr a;
        ref::parse6(ref::widen(g[i]), a);
        const u128 m = a.value & ref::netmask(6, k);
        r.push_back(ref::net(6, m, k));
        if (m == a.value && k % 4 == 0) { r.push_back(ref::net(6, m, k, "eth0")); r.push_back(ref::net(6, m, k, "1")); }
    }
    return r;
}
static ipv6_network n6(const ref::net& n) { error_code e = error_code::no_error; return ipv6_network::from_address(lib6(n.address, n.scope), e, size_t(n.prefix)); }
static ipv4_network n4(const ref::net& n) { error_code e = error_code::no_error; return ipv4_network::from_address(lib4(uint32_t(n.address)), e, size_t(n.prefix)); }
static ip_network na(const ref::net& n) { return n.version == 4 ? ip_network(n4(n)) : ip_network(n6(n)); }
static uint64_t key(const ref::net& a) { return mc::comb(key(ref::addr(a.version, a.address, a.scope)), a.prefix); }

MC_SPACE(network_pairs, "all ordered pairs of networks of one version: every prefix length, several addresses, scope ids") {
    for (int k = 0; k < 2; ++k) {
        const std::vector<ref::net> p = nets(c, k == 0, k == 1);
        const uint64_t n = p.size();
        std::vector<ipv4_network> l4; std::vector<ipv6_network> l6;
        for (size_t i = 0; i < n; ++i) { if (k == 0) l4.push_back(n4(p[i])); else l6.push_back(n6(p[i])); }
        c.range(n * n, 256, [&](uint64_t i) {
            const ref::net &a = p[i / n], &b = p[i % n];
            c.state(mc::comb(key(a), key(b)));
            if (k == 0) { ordered(c, l4[i / n], l4[i % n], cmp(a, b), "ipv4_network", S(a), S(b)); hashed(c, l4[i / n], n4(b), a == b, "ipv4_network", S(a)); }
            else { ordered(c, l6[i / n], l6[i % n], cmp(a, b), "ipv6_network", S(a), S(b)); hashed(c, l6[i / n], n6(b), a == b, "ipv6_network", S(a)); }
            if (c.wants_sample()) c.sample(S(a) + " vs " + S(b) + " = " + mc::inum(cmp(a, b)));
        });
    }
}
MC_SPACE(any_network_pairs, "all ordered pairs of version-agnostic networks of both versions") {
    const std::vector<ref::net> p = nets(c, true, true);
    const uint64_t n = p.size();
    std::vector<ip_network> l;
    for (size_t i = 0; i < n; ++i) l.push_back(na(p[i]));
    c.range(n * n, 256, [&](uint64_t i) {
        const ref::net &a = p[i / n], &b = p[i % n];
        c.state(mc::comb(key(a), key(b)));
        ordered(c, l[i / n], l[i % n], cmp(a, b), "ip_network", S(a), S(b));
        hashed(c, l[i / n], na(b), a == b, "ip_network", S(a));
    });
}
MC_SPACE(triples, "all ordered triples of a mixed pool: the implementation's own < is transitive and compatible with ==") {
    std::vector<ref::addr> p;
    static const char* const sc[] = { "", "1", "eth0" };
    static const uint64_t v[] = { 0, 1, 0xFF, 0x100, 0xFFFFFFFF };
    for (int i = 0; i < 5; ++i) { p.push_back(ref::addr(4, v[i])); for (int k = 0; k < 3; ++k) { p.push_back(ref::addr(6, v[i], sc[k])); p.push_back(ref::addr(6, u128(v[i]) << 96, sc[k])); } }
    const uint64_t n = p.size();
    std::vector<ip_address> l;
    for (size_t i = 0; i < n; ++i) l.push_back(liba(p[i]));
    c.range(n * n * n, 256, [&](uint64_t i) {
        const ip_address &x = l[i / n / n], &y = l[i / n % n], &z = l[i % n];
        c.fresh();
        MC_CHECK(!(x < y && y < z) || x < z, "not transitive: " + S(x) + " " + S(y) + " " + S(z));
        MC_CHECK(!(x == y) || ((x < z) == (y < z) && (z < x) == (z < y)), "equal values order differently: " + S(x) + " " + S(y) + " " + S(z));
    });
}
MC_SPACE(hash_state, "hash depends on the value only: objects reaching the same value by different histories (set and reset of scope ids, assignment over other values)") {
    const std::vector<ref::addr> p = pool(c);
    const uint64_t n = p.size();
    c.range(n * n, 256, [&](uint64_t i) {
        const ref::addr &a = p[i / n], &b = p[i % n];
        c.state(mc::comb(key(a), key(b)));
        error_code e = error_code::no_error;
        ipv6_address x = lib6(a.value, b.scope);
        x.set_scope_id(a.scope, e);
        const ipv6_address y = lib6(a.value, a.scope);
        MC_CHECK(x == y && x.hash() == y.hash(), S(a) + " after scope " + Q(b.scope) + " differs from a fresh one");
        ipv6_address z = lib6(b.value, b.scope);
        z = x;
        MC_CHECK(z == y && z.hash() == y.hash(), S(a) + " assigned over " + S(b) + " differs from a fresh one");
        ip_address w = liba(b), v(y);
        w = v;
        MC_CHECK(w == v && w.hash() == v.hash(), S(a) + " assigned over " + S(b) + " differs from a fresh one");
    });
}

int main(int argc, char** argv) { return mc::main(argc, argv); }
