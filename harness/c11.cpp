// C11: subnets sequences.
#include "seq.hpp"

struct Arg { bool has_diff, has_new; size_t diff, prefix; };

static error_code expect(int W, int prefix, const Arg& a, int& out) {
    if (prefix == W) { out = W; return error_code::no_error; }
    size_t diff = a.has_diff ? a.diff : 1;
    if (a.has_new) {
        if (a.prefix < size_t(prefix)) return error_code::new_prefix_must_be_longer;
        if (diff != 1) return error_code::cannot_set_prefixlen_diff_and_new_prefix;
        diff = a.prefix - size_t(prefix);
    }
    if (diff > size_t(W - prefix)) return error_code::invalid_prefixlen_diff;
    out = prefix + int(diff);
    return error_code::no_error;
}
static Def subnets_of(int V, u128 net, int prefix, int np) {
    Def d;
    d.width = ref::width(V); d.hosts = false; d.version = V; d.prefix = np; d.first = net;
    d.step = np == 0 ? u128(0) : u128(1) << (d.width - np);
    d.whole = np - prefix == 128;
    d.count = d.whole ? u128(0) : u128(1) << (np - prefix);
    return d;
}
template <typename Net> static auto call(const Net& n, error_code& e, const Arg& a) -> decltype(n.subnets(e)) {
    if (a.has_new) return n.subnets(e, a.has_diff ? a.diff : 1, a.prefix);
    if (a.has_diff) return n.subnets(e, a.diff);
    return n.subnets(e);
}
#if MC_EXC
template <typename Net> static error_code thrown(const Net& n, const Arg& a) {
    try {
        if (a.has_new) { const auto r = n.subnets(a.has_diff ? a.diff : 1, a.prefix); (void) r; }
        else if (a.has_diff) { const auto r = n.subnets(a.diff); (void) r; }
        else { const auto r = n.subnets(); (void) r; }
    } catch (const ip::logic_error& e) { return e.code(); }
    return error_code::no_error;
}
#endif
template <int V, typename Net> static void args(mc::Ctx& c, const Net& n, u128 net, int prefix, const Arg& a, u128 walk) {
    int np = -1;
    const error_code want = expect(T<V>::W, prefix, a, np);
    const std::string what = n.to_string() + " subnets(" + (a.has_diff ? "diff " + ref::dec(u128(a.diff)) + " " : "") + (a.has_new ? "prefix " + ref::dec(u128(a.prefix)) : "") + ")";
    for (int prior = 0; prior < 2; ++prior) {
        error_code e = prior ? error_code::empty_address : error_code::no_error;
        const auto s = call(n, e, a);
        MC_CHECK(e == want, what + " reports " + S(e) + " instead of " + S(want));
        if (e != want) continue;
        if (want != error_code::no_error) { MC_CHECK(s.empty() && s.begin() == s.end() && U(s.size()) == 0, what + " failed but is not empty"); continue; }
        if (prior) { MC_CHECK(to_ref(s.front()) == subnets_of(V, net, prefix, np).net(0), what + " front"); continue; }
        judge<NetOf>(c, s, subnets_of(V, net, prefix, np), what, walk, 8);
    }
#if MC_EXC
    const error_code t = thrown(n, a);
    MC_CHECK(t == want, what + " throws " + S(t) + " instead of " + S(want));
#endif
    if (c.wants_sample()) c.sample(what + " -> " + (want == error_code::no_error ? "/" + ref::dec(u128(np)) : S(want)));
}
template <int V> static typename T<V>::network mk(u128 a, int prefix) { error_code e = error_code::no_error; return T<V>::network::from_address(T<V>::make(a), e, size_t(prefix)); }

template <int V> static void pairs(mc::Ctx& c, u128 base, int step) {
    const u128 walk = u128(c.bound(256, 4096, 16));
    for (int p = 0; p <= T<V>::W; ++p) {
        const u128 a = base & ref::netmask(V, p);
        const typename T<V>::network n = mk<V>(a, p);
        const ip_network g(n);
        for (int np = p; np <= T<V>::W; ++np) {
            if ((np - p) % step && np < T<V>::W - 1 && np > p + 8) continue;
            if (!c.take()) continue;
            c.state(mc::comb(mc::comb(ref::hi(a), ref::lo(a)), p * 256 + np));
            const Arg x = { false, true, 0, size_t(np) }, y = { true, false, size_t(np - p), 0 };
            args<V>(c, n, a, p, x, walk);
            args<V>(c, g, a, p, x, walk);
            args<V>(c, n, a, p, y, 0);
        }
    }
}
static std::vector<u128> bases(int V) {
    std::vector<u128> b;
    const u128 all = ref::all(V);
    b.push_back(0); b.push_back(all); b.push_back(all >> 1); b.push_back(V == 4 ? u128(0xC0A80180) : ref::mk(0x20010db800000000ull, 0));
    b.push_back((all >> 1) + 1);
    return b;
}
MC_SPACE(v4, "every pair of prefix lengths over base addresses at the bottom, middle and top: complete iteration of up to 2^8 (thorough 2^12) elements, both ends and boundary indices beyond; typed and version-agnostic") {
    const std::vector<u128> b = bases(4);
    for (size_t i = 0; i < b.size(); ++i) pairs<4>(c, b[i], c.reduced() ? 5 : 1);
}
MC_SPACE(v6, "the same for IPv6 (differences beyond 8 in steps of 3 at quick bounds)") {
    const std::vector<u128> b = bases(6);
    for (size_t i = 0; i < (c.thorough() ? b.size() : 3); ++i) pairs<6>(c, b[i], int(c.bound(3, 1, 40)));
}
MC_SPACE(long_walks, "complete iteration of 2^12 (thorough 2^18) subnets at every position of the prefix, bottom and top of the space") {
    const int k = int(c.bound(12, 18, 8));
    for (int t = 0; t < 2; ++t) {
        for (int p = 0; p + k <= 32; p += int(c.bound(2, 1, 10))) if (c.take()) { const u128 a = t ? ref::netmask(4, p) : 0; const Arg x = { false, true, 0, size_t(p + k) }; c.fresh(); args<4>(c, mk<4>(a, p), a, p, x, u128(1) << k); }
        for (int p = 0; p + k <= 128; p += int(c.bound(9, 4, 60))) if (c.take()) { const u128 a = t ? ref::netmask(6, p) : 0; const Arg x = { false, true, 0, size_t(p + k) }; c.fresh(); args<6>(c, mk<6>(a, p), a, p, x, u128(1) << k); }
    }
}
static std::vector<size_t> amounts(int w) {
    std::vector<size_t> r;
    for (int i = 0; i <= w + 3; ++i) r.push_back(size_t(i));
    static const size_t big[] = { 255, 256, 257, 512, 65536, (size_t(1) << 31) - 1, size_t(1) << 31, (size_t(1) << 32) - 1, size_t(1) << 32, (size_t(1) << 32) + 1, (size_t(1) << 32) + 8, size_t(1) << 63, ~size_t(0), ~size_t(0) - 1, ~size_t(0) - 7, ~size_t(0) - 31, ~size_t(0) - 127 };
    r.insert(r.end(), big, big + sizeof big / sizeof *big);
    return r;
}
template <int V> static void arguments(mc::Ctx& c, u128 base) {
    const std::vector<size_t> am = amounts(T<V>::W);
    static const size_t both[] = { 1, 0, 2, 3, 33, ~size_t(0) };
    const uint64_t k = am.size(), shapes = 1 + k + k + k * 6;
    for (int p = 0; p <= T<V>::W; p += (c.thorough() || V == 4 || p > 120 || p < 4) ? 1 : 4) {
        const u128 a = base & ref::netmask(V, p);
        const typename T<V>::network n = mk<V>(a, p);
        const ip_network g(n);
        c.range(shapes, 16, [&](uint64_t i) {
            Arg x = { false, false, 0, 0 };
            if (i == 0) {}
            else if (i < 1 + k) { x.has_diff = true; x.diff = am[i - 1]; }
            else if (i < 1 + 2 * k) { x.has_new = true; x.prefix = am[i - 1 - k]; }
            else { x.has_diff = x.has_new = true; x.prefix = am[(i - 1 - 2 * k) / 6]; x.diff = both[(i - 1 - 2 * k) % 6]; }
            int np = -1;
            if (expect(T<V>::W, p, x, np) == error_code::no_error && i > 0) { if (np != p && np != p + 1 && np != T<V>::W) return; } // valid arguments: other spaces
            c.fresh();
            args<V>(c, n, a, p, x, 16);
            args<V>(c, g, a, p, x, 16);
        });
    }
}
MC_SPACE(arguments4, "every prefix length x every difference, new prefix and both, valid or not, up to extreme sizes") { arguments<4>(c, 0xFFFFFFFF); if (!c.reduced()) arguments<4>(c, 0x0A010200); }
MC_SPACE(arguments6, "every prefix length x every difference, new prefix and both, valid or not, up to extreme sizes") { arguments<6>(c, ~u128(0)); if (c.thorough()) arguments<6>(c, ref::mk(0x20010db800000000ull, 0)); }

MC_SPACE(scoped, "subnets of networks with a scope id have the same numeric values") {
    for (int p = 64; p <= 128; ++p) for (int np = p; np <= 128 && np <= p + 6; ++np) if (c.take()) {
        error_code e = error_code::no_error;
        const u128 a = ref::mk(0xfe80000000000000ull, 0);
        const ipv6_network n = ipv6_network::from_address(lib6(a, "eth0"), e, size_t(p));
        const auto s = n.subnets(e, 1, size_t(np));
        const Def d = subnets_of(6, a, p, np);
        c.fresh();
        uint64_t k = 0;
        for (auto it = s.begin(); it != s.end() && k < 100; ++it, ++k) MC_CHECK(value_of((*it).network_address()) == d.net(k).address && (*it).prefixlen() == size_t(np), n.to_string() + " subnet " + mc::num(k) + " is " + (*it).to_string());
        MC_CHECK(e == error_code::no_error && u128(k) == d.count, n.to_string() + " iteration of /" + mc::num(np) + " yields " + mc::num(k));
    }
}
int main(int argc, char** argv) { return mc::main(argc, argv); }
