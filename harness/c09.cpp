// C09: network relations are exactly those of the address sets; construction from address and prefix.
#include "lib.hpp"

template <int V> static typename T<V>::network mk(u128 a, int prefix) { error_code e = error_code::no_error; return T<V>::network::from_address(T<V>::make(a), e, size_t(prefix), false); }

struct N { u128 first, last; int prefix; };
template <int V> static N rn(u128 a, int p) { const N n = { a & ref::netmask(V, p), a | ref::hostmask(V, p), p }; return n; }
static std::string show(int V, const N& n) { return S(ref::net(V, n.first, n.prefix)); }
static uint64_t key(const N& n) { return mc::comb(mc::comb(ref::hi(n.first), ref::lo(n.first)), n.prefix); }

template <int V> static std::vector<N> family(const std::vector<u128>& bases, int step) {
    std::vector<N> r;
    for (size_t i = 0; i < bases.size(); ++i)
        for (int p = 0; p <= T<V>::W; ++p) {
            if (p % step && p % 8 && p < T<V>::W - 1) continue;
            r.push_back(rn<V>(bases[i], p));
            if (p) r.push_back(rn<V>(bases[i] ^ (u128(1) << (T<V>::W - p)), p)); // its sibling
        }
    return r;
}
// all networks inside the block of 2^bits addresses at base
template <int V> static std::vector<N> universe(u128 base, int bits) {
    std::vector<N> r;
    for (int b = 0; b <= bits; ++b) for (u128 i = 0; i < (u128(1) << (bits - b)); ++i) r.push_back(rn<V>(base + (i << b), T<V>::W - b));
    return r;
}
template <int V> static void pair(mc::Ctx& c, const N& a, const N& b, const typename T<V>::network& x, const typename T<V>::network& y) {
    const bool sub = a.first >= b.first && a.last <= b.last, over = a.first <= b.last && b.first <= a.last, sup = b.first >= a.first && b.last <= a.last;
    MC_CHECK(x.subnet_of(y) == sub, show(V, a) + " subnet_of " + show(V, b) + " gives " + B(!sub));
    MC_CHECK(x.supernet_of(y) == sup, show(V, a) + " supernet_of " + show(V, b) + " gives " + B(!sup));
    MC_CHECK(x.overlaps(y) == over, show(V, a) + " overlaps " + show(V, b) + " gives " + B(!over));
    MC_CHECK((x == y) == (sub && sup), show(V, a) + " == " + show(V, b));
    if (c.wants_sample()) c.sample(show(V, a) + " / " + show(V, b) + (sub ? " subnet" : "") + (sup ? " supernet" : "") + (over ? " overlaps" : " disjoint"));
}
template <int V> static void any_pair(mc::Ctx& c, const N& a, const N& b, const ip_network& x, const ip_network& y) {
    const bool sub = a.first >= b.first && a.last <= b.last, over = a.first <= b.last && b.first <= a.last, sup = b.first >= a.first && b.last <= a.last;
    MC_CHECK(x.subnet_of(y) == sub && x.supernet_of(y) == sup && x.overlaps(y) == over, "ip_network " + show(V, a) + " and " + show(V, b) + ": subnet_of " + B(x.subnet_of(y)) + " supernet_of " + B(x.supernet_of(y)) + " overlaps " + B(x.overlaps(y)));
}
template <int V> static void all_pairs(mc::Ctx& c, const std::vector<N>& p) {
    const uint64_t n = p.size();
    std::vector<typename T<V>::network> l;
    std::vector<ip_network> g;
    for (size_t i = 0; i < n; ++i) { l.push_back(mk<V>(p[i].first, p[i].prefix)); g.push_back(l.back()); }
    c.range(n * n, 256, [&](uint64_t i) {
        c.state(mc::comb(key(p[i / n]), key(p[i % n])) + V);
        pair<V>(c, p[i / n], p[i % n], l[i / n], l[i % n]);
        any_pair<V>(c, p[i / n], p[i % n], g[i / n], g[i % n]);
    });
}
template <int V> static void member(mc::Ctx& c, const N& n, const typename T<V>::network& x, u128 a) {
    const bool in = a >= n.first && a <= n.last;
    const typename T<V>::address l = T<V>::make(a);
    MC_CHECK(x.contains(l) == in, show(V, n) + " contains " + S(l) + " gives " + B(!in));
    MC_CHECK(ip_network(x).contains(ip_address(l)) == in, "ip_network " + show(V, n) + " contains " + S(l) + " gives " + B(!in));
}
template <int V> static void members(mc::Ctx& c, const N& n) {
    const typename T<V>::network x = mk<V>(n.first, n.prefix);
    const u128 all = ref::all(V);
    for (int d = -2; d <= 2; ++d) { member<V>(c, n, x, (n.first + u128(__int128(d))) & all); member<V>(c, n, x, (n.last + u128(__int128(d))) & all); }
    member<V>(c, n, x, n.first + ((n.last - n.first) >> 1));
    for (int b = 0; b < T<V>::W; ++b) { member<V>(c, n, x, n.first ^ u128(1) << b); member<V>(c, n, x, n.last ^ u128(1) << b); }
    MC_CHECK(U(x.addresses_count()) == ((n.last - n.first + 1) & all), show(V, n) + " addresses_count");
    MC_CHECK(U(ip_network(x).addresses_count()) == n.last - n.first + 1, "ip_network " + show(V, n) + " addresses_count");
    MC_CHECK(value_of(x.network_address()) == n.first && value_of(x.broadcast_address()) == n.last, show(V, n) + " network or broadcast address");
    MC_CHECK(value_of(x.netmask()) == ref::netmask(V, n.prefix) && value_of(x.hostmask()) == ref::hostmask(V, n.prefix) && x.prefixlen() == size_t(n.prefix), show(V, n) + " masks");
}
static std::vector<u128> bases4(mc::Ctx& c) { const uint32_t b[] = { 0, 0x0A010203, 0x80000000, 0x7FFFFFFF, 0xC0A80101, 0xFFFFFFFF, 0x55555555 }; return std::vector<u128>(b, b + (c.reduced() ? 3 : 7)); }
static std::vector<u128> bases6(mc::Ctx& c) { const u128 b[] = { 0, ~u128(0), ref::mk(0x20010db800000000ull, 1), ref::mk(0x8000000000000000ull, 0), ref::mk(0x5555555555555555ull, 0x5555555555555555ull), ref::mk(0, ~0ull) }; return std::vector<u128>(b, b + (c.reduced() ? 2 : 6)); }

MC_SPACE(pairs4, "all ordered pairs of IPv4 networks: every prefix length over several addresses with siblings") { all_pairs<4>(c, family<4>(bases4(c), 1)); }
MC_SPACE(pairs6, "all ordered pairs of IPv6 networks: every prefix length over several addresses with siblings") { all_pairs<6>(c, family<6>(bases6(c), int(c.bound(2, 1, 7)))); }
MC_SPACE(universe4, "every pair of networks of a complete block of 2^k IPv4 addresses at the bottom, middle and top of the space") {
    const int k = int(c.bound(6, 8, 4));
    all_pairs<4>(c, universe<4>(0, k)); all_pairs<4>(c, universe<4>(0x7FFFFFC0 & ~uint32_t(ref::ones(k)), k)); all_pairs<4>(c, universe<4>(ref::all(4) - ref::ones(k), k));
}
MC_SPACE(universe6, "every pair of networks of a complete block of 2^k IPv6 addresses at the bottom, across the 64-bit boundary and at the top of the space") {
    const int k = int(c.bound(5, 7, 3));
    all_pairs<6>(c, universe<6>(0, k)); all_pairs<6>(c, universe<6>(ref::mk(5, 0), k)); all_pairs<6>(c, universe<6>(ref::mk(5, ~0ull) & ~ref::ones(k), k)); all_pairs<6>(c, universe<6>(~u128(0) - ref::ones(k), k));
}
MC_SPACE(split6, "networks around the top bits: all pairs of networks with prefix length up to k, the whole space as the universe") {
    std::vector<N> p;
    for (int n = 0; n <= int(c.bound(6, 8, 4)); ++n) for (u128 i = 0; i < u128(1) << n; ++i) p.push_back(rn<6>(n ? i << (128 - n) : 0, n));
    all_pairs<6>(c, p);
    p.clear();
    for (int n = 0; n <= int(c.bound(6, 8, 4)); ++n) for (u128 i = 0; i < u128(1) << n; ++i) p.push_back(rn<4>(n ? i << (32 - n) : 0, n));
    all_pairs<4>(c, p);
}
MC_SPACE(members4, "addresses at, around and one bit away from both ends of every network of the family") {
    const std::vector<N> p = family<4>(bases4(c), 1);
    for (size_t i = 0; i < p.size(); ++i) if (c.take()) { c.state(key(p[i])); members<4>(c, p[i]); }
}
MC_SPACE(members6, "addresses at, around and one bit away from both ends of every network of the family") {
    const std::vector<N> p = family<6>(bases6(c), 1);
    for (size_t i = 0; i < p.size(); ++i) if (c.take()) { c.state(key(p[i])); members<6>(c, p[i]); }
}
MC_SPACE(scoped_members, "membership does not depend on the scope id of the address asked for") {
    static const char* const sc[] = { "1", "eth0" };
    const std::vector<N> p = family<6>(bases6(c), 1);
    c.range(p.size() * 2, 16, [&](uint64_t i) {
        const N& n = p[i / 2];
        const ipv6_network x = mk<6>(n.first, n.prefix);
        c.fresh();
        for (int d = -1; d <= 1; ++d) for (int e = 0; e < 2; ++e) {
            const u128 a = (e ? n.first : n.last) + u128(__int128(d));
            const bool in = a >= n.first && a <= n.last;
            const bool got = x.contains(lib6(a, sc[i % 2]));
            MC_CHECK(got == in, show(6, n) + " contains a scoped address: " + B(got));
        }
    });
}
MC_SPACE(mixed, "relations across versions are all false") {
    const std::vector<N> p = family<4>(bases4(c), 4), q = family<6>(bases6(c), 16);
    const uint64_t n = p.size(), m = q.size();
    c.range(n * m, 64, [&](uint64_t i) {
        const ip_network a = mk<4>(p[i / m].first, p[i / m].prefix), b = mk<6>(q[i % m].first, q[i % m].prefix);
        c.fresh();
        MC_CHECK(!a.overlaps(b) && !b.overlaps(a) && !a.subnet_of(b) && !b.subnet_of(a) && !a.supernet_of(b) && !b.supernet_of(a) && a != b, a.to_string() + " related to " + b.to_string());
        MC_CHECK(!a.contains(b.network_address()) && !b.contains(a.network_address()), a.to_string() + " contains an address of the other version");
    });
}
// construction: from_address agrees with parsing the text, and with the reference
template <int V, typename Net> static void build(mc::Ctx& c, u128 a, size_t prefix, bool strict) {
    typedef T<V> M;
    error_code e1 = error_code::no_error, e2 = error_code::no_error;
    ref::net want;
    const bool ok = prefix <= size_t(M::W) && ref::make_net(ref::addr(V, a), int(prefix), strict, want);
    const typename M::address la = M::make(a);
    const Net n = Net::from_address(la, e1, prefix, strict);
    const std::string text = S(ref::addr(V, a)) + "/" + ref::dec(u128(prefix));
    const Net p = Net::parse(text, e2, strict);
    const std::string what = text + (strict ? " strict" : "");
    MC_CHECK((e1 == error_code::no_error) == ok, "from_address " + what + " " + S(e1));
    MC_CHECK((e2 == error_code::no_error) == ok, "parse " + what + " " + S(e2));
    if (ok) {
        MC_CHECK(to_ref(n) == want, "from_address " + what + " gives " + S(to_ref(n)));
        MC_CHECK(n == p, "from_address and parse differ for " + what);
        MC_CHECK(value_of(n.broadcast_address()) == want.last() && value_of(n.netmask()) == ref::netmask(V, want.prefix), "from_address " + what + " masks");
    }
}
template <int V> static void builds(mc::Ctx& c, u128 a, size_t prefix, bool strict) {
    c.state(mc::comb(mc::comb(ref::hi(a), ref::lo(a)), mc::comb(prefix, V + strict)));
    build<V, typename T<V>::network>(c, a, prefix, strict);
    build<V, ip_network>(c, a, prefix, strict);
}
MC_SPACE(construct4, "every pool address with every prefix length (and beyond, up to extreme values), strict and not") {
    const std::vector<uint32_t> p = en::pool4(c.thorough());
    static const size_t big[] = { 33, 34, 63, 64, 127, 128, 129, 255, 256, 288, size_t(1) << 31, size_t(1) << 32, (size_t(1) << 32) + 24, ~size_t(0), ~size_t(0) - 31, size_t(1) << 63 };
    const uint64_t k = 33 + sizeof big / sizeof *big;
    c.range(p.size() * k * 2, 64, [&](uint64_t i) { const size_t n = i / 2 % k; builds<4>(c, p[i / 2 / k], n < 33 ? n : big[n - 33], i & 1); });
}
MC_SPACE(construct6, "every pool address with every prefix length (and beyond, up to extreme values), strict and not") {
    const std::vector<u128> p = en::pool6(c.thorough());
    static const size_t big[] = { 129, 130, 255, 256, 384, size_t(1) << 31, size_t(1) << 32, (size_t(1) << 32) + 64, ~size_t(0), ~size_t(0) - 127, size_t(1) << 63 };
    const uint64_t k = 129 + sizeof big / sizeof *big;
    const uint64_t step = c.reduced() ? 5 : 1;
    c.range(p.size() / step * k * 2, 64, [&](uint64_t i) { const size_t n = i / 2 % k; builds<6>(c, p[i / 2 / k * step], n < 129 ? n : big[n - 129], i & 1); });
}

int main(int argc, char** argv) { return mc::main(argc, argv); }
