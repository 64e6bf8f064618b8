// C15: classification predicates match the registry ranges for every address and network.
#include "lib.hpp"

struct Range { u128 first, last; };
typedef std::vector<Range> ranges;
static Range r4(int a, int b, int d, int e, int prefix) { const u128 v = u128(uint32_t(a) << 24 | b << 16 | d << 8 | e); const Range r = { v, v | ref::hostmask(4, prefix) }; return r; }
static Range r6(uint64_t hi, uint64_t lo, int prefix) { const u128 v = ref::mk(hi, lo); const Range r = { v, v | ref::hostmask(6, prefix) }; return r; }

// IANA special-purpose registries as the library's documentation (and Python's ipaddress) uses them
struct Registry {
    ranges priv[2], resv[2], mult[2], loop[2], link[2], site[2], shared, unsp[2];
    Registry() {
        ranges& p = priv[0];
        p.push_back(r4(0, 0, 0, 0, 8)); p.push_back(r4(10, 0, 0, 0, 8)); p.push_back(r4(127, 0, 0, 0, 8)); p.push_back(r4(169, 254, 0, 0, 16)); p.push_back(r4(172, 16, 0, 0, 12));
        p.push_back(r4(192, 0, 0, 0, 29)); p.push_back(r4(192, 0, 0, 170, 31)); p.push_back(r4(192, 0, 2, 0, 24)); p.push_back(r4(192, 168, 0, 0, 16)); p.push_back(r4(198, 18, 0, 0, 15));
        p.push_back(r4(198, 51, 100, 0, 24)); p.push_back(r4(203, 0, 113, 0, 24)); p.push_back(r4(240, 0, 0, 0, 4)); p.push_back(r4(255, 255, 255, 255, 32));
        shared.push_back(r4(100, 64, 0, 0, 10));
        resv[0].push_back(r4(240, 0, 0, 0, 4));
        mult[0].push_back(r4(224, 0, 0, 0, 4));
        loop[0].push_back(r4(127, 0, 0, 0, 8));
        link[0].push_back(r4(169, 254, 0, 0, 16));
        unsp[0].push_back(r4(0, 0, 0, 0, 32));
        ranges& q = priv[1];
        q.push_back(r6(0, 1, 128)); q.push_back(r6(0, 0, 128)); q.push_back(r6(0, 0x0000FFFF00000000ull, 96)); q.push_back(r6(0x0100000000000000ull, 0, 64)); q.push_back(r6(0x2001000000000000ull, 0, 23));
        q.push_back(r6(0x2001000200000000ull, 0, 48)); q.push_back(r6(0x20010db800000000ull, 0, 32)); q.push_back(r6(0x2001001000000000ull, 0, 28)); q.push_back(r6(0xfc00000000000000ull, 0, 7)); q.push_back(r6(0xfe80000000000000ull, 0, 10));
        ranges& v = resv[1];
        v.push_back(r6(0, 0, 8)); v.push_back(r6(0x0100000000000000ull, 0, 8)); v.push_back(r6(0x0200000000000000ull, 0, 7)); v.push_back(r6(0x0400000000000000ull, 0, 6)); v.push_back(r6(0x0800000000000000ull, 0, 5));
        v.push_back(r6(0x1000000000000000ull, 0, 4)); v.push_back(r6(0x4000000000000000ull, 0, 3)); v.push_back(r6(0x6000000000000000ull, 0, 3)); v.push_back(r6(0x8000000000000000ull, 0, 3)); v.push_back(r6(0xA000000000000000ull, 0, 3));
        v.push_back(r6(0xC000000000000000ull, 0, 3)); v.push_back(r6(0xE000000000000000ull, 0, 4)); v.push_back(r6(0xF000000000000000ull, 0, 5)); v.push_back(r6(0xF800000000000000ull, 0, 6)); v.push_back(r6(0xFE00000000000000ull, 0, 9));
        mult[1].push_back(r6(0xFF00000000000000ull, 0, 8));
        loop[1].push_back(r6(0, 1, 128));
        link[1].push_back(r6(0xFE80000000000000ull, 0, 10));
        site[1].push_back(r6(0xFEC0000000000000ull, 0, 10));
        unsp[1].push_back(r6(0, 0, 128));
    }
    std::vector<u128> edges(int V) const {
        std::vector<u128> e;
        const ranges* all[] = { priv + V, resv + V, mult + V, loop + V, link + V, site + V, unsp + V, &shared };
        for (int k = 0; k < (V ? 7 : 8); ++k) for (size_t i = 0; i < all[k]->size(); ++i) { const Range& r = (*all[k])[i]; e.push_back(r.first); e.push_back(r.last); e.push_back(r.first - 1); e.push_back(r.last + 1); e.push_back(r.first + 1); e.push_back(r.last - 1); }
        for (size_t i = 0; i < e.size(); ++i) e[i] &= ref::all(V ? 6 : 4);
        return e;
    }
};
static const Registry& reg() { static const Registry r; return r; }
static bool in(const ranges& s, u128 a) { for (size_t i = 0; i < s.size(); ++i) if (a >= s[i].first && a <= s[i].last) return true; return false; }
static bool within(const ranges& s, u128 a, u128 b) { for (size_t i = 0; i < s.size(); ++i) if (a >= s[i].first && b <= s[i].last) return true; return false; }

enum { MULT, PRIV, GLOB, RESV, LOOP, LINK, UNSP, SITE, KINDS };
static const char* const kind[] = { "is_multicast", "is_private", "is_global", "is_reserved", "is_loopback", "is_link_local", "is_unspecified", "is_site_local" };

static unsigned want(int V, u128 v) {
    const Registry& g = reg();
    bool p = in(g.priv[V], v);
    bool glob;
    if (V == 0) glob = !in(g.shared, v) && !p;
    else { if (v >> 32 == 0xFFFF) p = in(g.priv[0], u128(uint32_t(v))); glob = !p; }
    return unsigned(in(g.mult[V], v)) << MULT | unsigned(p) << PRIV | unsigned(glob) << GLOB | unsigned(in(g.resv[V], v)) << RESV | unsigned(in(g.loop[V], v)) << LOOP | unsigned(in(g.link[V], v)) << LINK | unsigned(in(g.unsp[V], v)) << UNSP | unsigned(in(g.site[V], v)) << SITE;
}
template <typename A> static unsigned common(const A& a) {
    return unsigned(a.is_multicast()) << MULT | unsigned(a.is_private()) << PRIV | unsigned(a.is_global()) << GLOB | unsigned(a.is_reserved()) << RESV | unsigned(a.is_loopback()) << LOOP | unsigned(a.is_link_local()) << LINK | unsigned(a.is_unspecified()) << UNSP;
}
static unsigned got(const ipv4_address& a) { return common(a); }
static unsigned got(const ipv6_address& a) { return common(a) | unsigned(a.is_site_local()) << SITE; }
static unsigned got(const ip_address& a) { return common(a) | unsigned(a.is_site_local()) << SITE; }
static unsigned got(const ipv4_network& a) { return common(a); }
static unsigned got(const ipv6_network& a) { return common(a) | unsigned(a.is_site_local()) << SITE; }
static unsigned got(const ip_network& a) { return common(a) | unsigned(a.is_site_local()) << SITE; }

static std::string diff(unsigned w, unsigned g) {
    std::string s;
    for (int k = 0; k < KINDS; ++k) if ((w ^ g) >> k & 1) s += std::string(" ") + kind[k] + " is " + B(g >> k & 1);
    return s;
}
static void four(mc::Ctx& c, uint32_t v) {
    const unsigned w = want(0, v), g = got(lib4(v));
    MC_CHECK(w == g, S(lib4(v)) + diff(w, g));
}
static void four_any(mc::Ctx& c, uint32_t v) {
    four(c, v);
    const unsigned w = want(0, v), g = got(ip_address(lib4(v)));
    MC_CHECK(w == g, "ip_address " + S(lib4(v)) + diff(w, g));
    if (c.wants_sample()) c.sample(S(lib4(v)) + " predicates " + mc::hex(g));
}
static void six(mc::Ctx& c, u128 v) {
    const unsigned w = want(1, v);
    ipv6_address a = lib6(v);
    unsigned g = got(a);
    MC_CHECK(w == g, S(a) + diff(w, g));
    g = got(ip_address(a));
    MC_CHECK(w == g, "ip_address " + S(a) + diff(w, g));
    a = lib6(v, "eth0");
    g = got(a);
    MC_CHECK(w == g, S(a) + diff(w, g));
    if (c.wants_sample()) c.sample(S(a) + " predicates " + mc::hex(g));
}
template <int V>
static void network(mc::Ctx& c, u128 v, int prefix) {
    typedef T<V> M;
    error_code e = error_code::no_error;
    const typename M::network n = M::network::from_address(M::make(v), e, size_t(prefix), false);
    const u128 a = v & ref::netmask(V, prefix), b = v | ref::hostmask(V, prefix);
    const int k = V == 6;
    const Registry& r = reg();
    unsigned w = want(k, a) & want(k, b) & ~(1u << PRIV | 1u << GLOB);
    const bool p = within(r.priv[k], a, b);
    w |= unsigned(p) << PRIV | unsigned(!p && !(k == 0 && within(r.shared, a, b))) << GLOB;
    unsigned g = got(n);
    MC_CHECK(w == g, n.to_string() + diff(w, g));
    g = got(ip_network(n));
    MC_CHECK(w == g, "ip_network " + n.to_string() + diff(w, g));
    if (c.wants_sample()) c.sample(n.to_string() + " predicates " + mc::hex(g));
}

MC_SPACE(ipv4_slash24, "every /24 (2^24), at its first, second and last address; thorough: all 2^32 addresses") {
    if (c.thorough()) { c.range(uint64_t(1) << 32, 1 << 16, [&](uint64_t i) { c.fresh(); four(c, uint32_t(i)); }); return; }
    const uint32_t stride = c.reduced() ? 64 : 1;
    c.range((1u << 24) / stride, 4096, [&](uint64_t i) {
        const uint32_t v = uint32_t(i * stride) << 8;
        c.fresh(3);
        four(c, v); four(c, v + 1); four(c, v + 255);
    });
}
MC_SPACE(ipv4_edges, "1024 addresses either side of every range boundary, typed and version-agnostic; every address one or two bits from a boundary") {
    const std::vector<u128> e = reg().edges(0);
    for (size_t k = 0; k < e.size(); ++k) {
        c.range(2049, 256, [&](uint64_t i) { const uint32_t v = uint32_t(e[k]) + uint32_t(i) - 1024; c.state(v); four_any(c, v); });
        c.range(33 * 33, 64, [&](uint64_t i) {
            uint32_t v = uint32_t(e[k]);
            if (i % 33 < 32) v ^= 1u << i % 33;
            if (i / 33 < 32) v ^= 1u << i / 33;
            c.state(v);
            four_any(c, v);
        });
    }
}
MC_SPACE(ipv6_edges, "16 addresses either side of every range boundary; every address one or two bits from a boundary") {
    const std::vector<u128> e = reg().edges(1);
    for (size_t k = 0; k < e.size(); ++k) {
        c.range(33, 64, [&](uint64_t i) { const u128 v = e[k] + i - 16; c.state(mc::comb(ref::hi(v), ref::lo(v))); six(c, v); });
        if (c.reduced() && k % 6) continue;
        c.range(129 * 129, 256, [&](uint64_t i) {
            u128 v = e[k];
            if (i % 129 < 128) v ^= u128(1) << i % 129;
            if (i / 129 < 128) v ^= u128(1) << i / 129;
            c.state(mc::comb(ref::hi(v), ref::lo(v)));
            six(c, v);
        });
    }
}
MC_SPACE(ipv6_groups, "every first group, and every second group under 2001: and 0100:, with five remainders; every group value at every position alone") {
    static const uint64_t rest[] = { 0, 1, 0xFFFFFFFFFFFFFFFFull, 0x0000FFFF0A000001ull, 0x0000FFFF08080808ull };
    c.range(3 * 65536 * 5, 256, [&](uint64_t i) {
        const uint64_t lo = rest[i % 5]; i /= 5;
        const uint64_t g = i & 0xFFFF;
        const int k = int(i >> 16);
        c.fresh();
        six(c, ref::mk(k == 0 ? g << 48 : k == 1 ? 0x2001ull << 48 | g << 32 : 0x0100ull << 48 | g << 32, lo));
    });
    c.range(8 * 65536, 256, [&](uint64_t i) { c.fresh(); six(c, u128(i & 0xFFFF) << 16 * int(i >> 16)); });
}
MC_SPACE(ipv6_mapped, "IPv4-mapped addresses: the address and its neighbours at every IPv4 boundary, every IPv4 /16 at three addresses") {
    const std::vector<u128> e = reg().edges(0);
    for (size_t k = 0; k < e.size(); ++k) for (int d = -2; d <= 2; ++d) if (c.take()) { const u128 v = u128(0xFFFF) << 32 | uint32_t(uint32_t(e[k]) + d); c.state(mc::comb(0, ref::lo(v))); six(c, v); }
    c.range(65536, 64, [&](uint64_t i) {
        for (int k = 0; k < 3; ++k) six(c, u128(0xFFFF) << 32 | uint32_t(uint32_t(i) << 16 | (k == 0 ? 0 : k == 1 ? 0xFFFF : 0x8001)));
        c.fresh(3);
    });
}
MC_SPACE(networks4, "every prefix length around every boundary address and pool value") {
    std::vector<u128> e = reg().edges(0);
    const std::vector<uint32_t> p = en::pool4(true);
    e.insert(e.end(), p.begin(), p.end());
    for (size_t k = 0; k < e.size(); ++k) for (int n = 0; n <= 32; ++n) if (c.take()) { c.state(mc::comb(uint64_t(e[k] & ref::netmask(4, n)), n)); network<4>(c, e[k], n); }
    for (int n = 0; n <= int(c.bound(16, 20, 12)); ++n) c.range(uint64_t(1) << n, 256, [&](uint64_t i) { c.fresh(); network<4>(c, n ? u128(uint32_t(i) << (32 - n)) : u128(0), n); });
}
MC_SPACE(networks6, "every prefix length around every boundary address and pool value; every network of up to 16 (thorough 20) bits") {
    std::vector<u128> e = reg().edges(1);
    const std::vector<u128> p = en::pool6(false);
    e.insert(e.end(), p.begin(), p.end());
    for (size_t k = 0; k < e.size(); ++k) for (int n = 0; n <= 128; ++n) if (c.take()) { const u128 m = e[k] & ref::netmask(6, n); c.state(mc::comb(mc::comb(ref::hi(m), ref::lo(m)), n)); network<6>(c, e[k], n); }
    for (int n = 1; n <= int(c.bound(16, 20, 12)); ++n) c.range(uint64_t(1) << n, 256, [&](uint64_t i) { c.fresh(); network<6>(c, u128(i) << (128 - n), n); });
}

int main(int argc, char** argv) { return mc::main(argc, argv); }
