// C10: supernet.
#include "lib.hpp"

template <int V> static typename T<V>::network mk(u128 a, int prefix, const std::string& scope = std::string());
template <> ipv4_network mk<4>(u128 a, int prefix, const std::string&) { error_code e = error_code::no_error; return ipv4_network::from_address(lib4(uint32_t(a)), e, size_t(prefix), false); }
template <> ipv6_network mk<6>(u128 a, int prefix, const std::string& scope) { error_code e = error_code::no_error; return ipv6_network::from_address(lib6(a, scope), e, size_t(prefix), false); }

struct Arg { bool has_diff, has_new; size_t diff, prefix; };

// Documented outcome: error code, or the prefix of the result.
static error_code expect(int, int prefix, const Arg& a, int& out) {
    if (prefix == 0) { out = 0; return error_code::no_error; }
    size_t diff = a.has_diff ? a.diff : 1;
    if (a.has_new) {
        if (a.prefix > size_t(prefix)) return error_code::new_prefix_must_be_shorter;
        if (diff != 1) return error_code::cannot_set_prefixlen_diff_and_new_prefix;
        diff = size_t(prefix) - a.prefix;
    }
    if (diff > size_t(prefix)) return error_code::invalid_prefixlen_diff;
    out = prefix - int(diff);
    return error_code::no_error;
}
template <typename Net> static Net call(const Net& n, error_code& e, const Arg& a) {
    if (a.has_new) return n.supernet(e, a.has_diff ? a.diff : 1, a.prefix);
    if (a.has_diff) return n.supernet(e, a.diff);
    return n.supernet(e);
}
#if MC_EXC
template <typename Net> static error_code thrown(const Net& n, const Arg& a, Net& r) {
    try {
        if (a.has_new) r = n.supernet(a.has_diff ? a.diff : 1, a.prefix);
        else if (a.has_diff) r = n.supernet(a.diff);
        else r = n.supernet();
    } catch (const ip::logic_error& e) { return e.code(); }
    return error_code::no_error;
}
#endif
template <int V, typename Net> static void one(mc::Ctx& c, const Net& n, u128 addr, int prefix, const std::string& scope, const Arg& a) {
    int np = -1;
    const error_code want = expect(T<V>::W, prefix, a, np);
    const std::string what = n.to_string() + " supernet(" + (a.has_diff ? "diff " + ref::dec(u128(a.diff)) + " " : "") + (a.has_new ? "prefix " + ref::dec(u128(a.prefix)) : "") + ")";
    for (int prior = 0; prior < 2; ++prior) {
        error_code e = prior ? error_code::empty_address : error_code::no_error;
        const Net r = call(n, e, a);
        MC_CHECK(e == want, what + " reports " + S(e) + " instead of " + S(want));
        if (want != error_code::no_error || e != want) continue;
        ref::net m;
        ref::make_net(ref::addr(V, addr, scope), np, false, m);
        const ref::net g = to_ref(r);
        MC_CHECK(g.version == V && g.address == m.address && g.prefix == m.prefix, what + " gives " + S(g));
        if (np == prefix) MC_CHECK(g.scope == scope || prefix != 0, what + " scope " + g.scope);
        MC_CHECK(value_of(r.netmask()) == ref::netmask(V, np) && value_of(r.broadcast_address()) == m.last(), what + " masks");
        MC_CHECK(scope.size() || (n.subnet_of(r) && r.supernet_of(n)), what + " does not contain the original");
    }
#if MC_EXC
    Net r;
    const error_code t = thrown(n, a, r);
    MC_CHECK(t == want, what + " throws " + S(t) + " instead of " + S(want));
    if (want == error_code::no_error && t == want) { error_code e = error_code::no_error; MC_CHECK(r == call(n, e, a), what + " differs between overloads"); }
#endif
    if (c.wants_sample()) c.sample(what + " -> " + (want == error_code::no_error ? "/" + ref::dec(u128(np)) : S(want)));
}
static std::vector<size_t> amounts(int w) {
    std::vector<size_t> r;
    for (int i = 0; i <= w + 3; ++i) r.push_back(size_t(i));
    static const size_t big[] = { 255, 256, 257, 512, 1000, 65535, 65536, (size_t(1) << 31) - 1, size_t(1) << 31, (size_t(1) << 32) - 1, size_t(1) << 32, (size_t(1) << 32) + 1, (size_t(1) << 32) + 8, size_t(1) << 63, ~size_t(0), ~size_t(0) - 1, ~size_t(0) - 7, ~size_t(0) - 31 };
    r.insert(r.end(), big, big + sizeof big / sizeof *big);
    return r;
}
template <int V> static void space(mc::Ctx& c, const std::vector<u128>& bases, const std::string& scope) {
    const std::vector<size_t> am = amounts(T<V>::W);
    const uint64_t k = am.size(), shapes = 1 + k + k + k * 6;
    static const size_t both[] = { 1, 0, 2, 3, 33, ~size_t(0) };
    for (size_t b = 0; b < bases.size(); ++b) for (int p = 0; p <= T<V>::W; ++p) {
        const u128 a = bases[b] & ref::netmask(V, p);
        const std::string sc = a == bases[b] ? scope : std::string();
        const typename T<V>::network n = mk<V>(a, p, sc);
        const ip_network g(n);
        c.range(shapes, 16, [&](uint64_t i) {
            Arg x = { false, false, 0, 0 };
            if (i == 0) {}
            else if (i < 1 + k) { x.has_diff = true; x.diff = am[i - 1]; }
            else if (i < 1 + 2 * k) { x.has_new = true; x.prefix = am[i - 1 - k]; }
            else { x.has_diff = x.has_new = true; x.prefix = am[(i - 1 - 2 * k) / 6]; x.diff = both[(i - 1 - 2 * k) % 6]; }
            c.fresh();
            one<V>(c, n, a, p, sc, x);
            one<V>(c, g, a, p, sc, x);
        });
    }
}
MC_SPACE(v4, "every prefix length x every difference, new prefix and both, up to and beyond the range, over several addresses, typed and version-agnostic") {
    const uint32_t b[] = { 0xFFFFFFFF, 0x0A01FF03, 0, 0xC0A80180, 0x55555555 };
    space<4>(c, std::vector<u128>(b, b + int(c.bound(4, 5, 1))), "");
}
MC_SPACE(v6, "every prefix length x every difference, new prefix and both, up to and beyond the range, over several addresses, typed and version-agnostic") {
    const u128 b[] = { ~u128(0), ref::mk(0x20010db8ffff0001ull, 0xff), 0, ref::mk(0x5555555555555555ull, 0x5555555555555555ull) };
    space<6>(c, std::vector<u128>(b, b + int(c.bound(2, 4, 1))), "");
}
MC_SPACE(v6_scoped, "networks with a scope id") {
    const u128 b[] = { ref::mk(0xfe80000000000000ull, 0) };
    space<6>(c, std::vector<u128>(b, b + 1), "eth0");
}
int main(int argc, char** argv) { return mc::main(argc, argv); }
