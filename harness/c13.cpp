// C13: address_exclude.
#include "lib.hpp"

template <int V> static typename T<V>::network mk(u128 a, int prefix) { error_code e = error_code::no_error; return T<V>::network::from_address(T<V>::make(a), e, size_t(prefix), false); }

template <typename Net> static void judge(mc::Ctx& c, const Net& n, const Net& o, const std::vector<ref::net>& want, const std::string& what, bool deep) {
    for (int prior = 0; prior < 2; ++prior) {
        error_code e = prior ? error_code::empty_address : error_code::no_error;
        const auto s = n.address_exclude(o, e);
        typedef decltype(s.begin()) It;
        MC_CHECK(e == error_code::no_error, what + " reports " + S(e));
        MC_CHECK(s.empty() == want.empty() && (s.begin() == s.end()) == want.empty() && s.begin() == s.cbegin() && s.end() == s.cend(), what + " empty() is " + B(s.empty()));
        size_t k = 0;
        for (It it = s.begin(); it != s.end() && k <= want.size(); ++it, ++k) {
            if (k >= want.size()) continue;
            c.step(3);
            if (!(to_ref(*it) == want[k])) { c.fail(what + ": element " + mc::num(k) + " is " + S(to_ref(*it)) + " instead of " + S(want[k])); return; }
            if (!(to_ref(*it.operator->()) == want[k])) { c.fail(what + ": operator-> differs"); return; }
            if (deep) { // a copy taken here goes on independently
                It j = it;
                size_t q = k;
                while (j != s.end() && q <= want.size()) { const It old = j++; if (q < want.size() && !(to_ref(*old) == want[q])) { c.fail(what + ": copy of the iterator yields " + S(to_ref(*old))); return; } ++q; }
                MC_CHECK(q == want.size(), what + ": copy of the iterator taken at " + mc::num(k) + " yields another number of elements");
                MC_CHECK((it == s.begin()) == (k == 0), what + ": iterator equality with begin()");
            }
        }
        MC_CHECK(k == want.size(), what + " yields " + mc::num(k) + " networks instead of " + mc::num(want.size()));
        if (c.wants_sample()) { std::string t; for (size_t i = 0; i < want.size() && i < 4; ++i) t += " " + S(want[i]); c.sample(what + ":" + t); }
        if (!deep) break;
    }
#if MC_EXC
    if (deep) {
        size_t k = 0;
        for (const auto& x : n.address_exclude(o)) { MC_CHECK(k < want.size() && to_ref(x) == want[k], what + ": throwing overload, element " + mc::num(k)); ++k; }
        MC_CHECK(k == want.size(), what + ": throwing overload yields " + mc::num(k) + " elements");
    }
#endif
}
template <int V> static void contained(mc::Ctx& c, u128 a, int p, u128 b, int q, bool deep) {
    std::vector<ref::net> want;
    for (int k = p + 1; k <= q; ++k) want.push_back(ref::net(V, (b ^ (u128(1) << (T<V>::W - k))) & ref::netmask(V, k), k));
    c.state(mc::comb(mc::comb(mc::comb(ref::hi(b), ref::lo(b)), p), q * 2 + V));
    // what the definition promises: disjoint, and together with the excluded network exactly the original
    u128 sum = ref::hostmask(V, q);
    for (size_t i = 0; i < want.size(); ++i) sum += ref::hostmask(V, want[i].prefix) + 1;
    if (sum != ref::hostmask(V, p)) { c.fail("reference model: sizes"); return; }
    const typename T<V>::network n = mk<V>(a, p), o = mk<V>(b, q);
    const std::string what = S(ref::net(V, a, p)) + " without " + S(ref::net(V, b, q));
    judge(c, n, o, want, what, deep);
    judge(c, ip_network(n), ip_network(o), want, "ip_network " + what, deep);
}
template <typename Net> static void rejected(mc::Ctx& c, const Net& n, const Net& o, error_code want, const std::string& what) {
    for (int prior = 0; prior < 2; ++prior) {
        error_code e = prior ? error_code::empty_address : error_code::no_error;
        const auto s = n.address_exclude(o, e);
        MC_CHECK(e == want, what + " reports " + S(e) + " instead of " + S(want));
        MC_CHECK(s.empty() && s.begin() == s.end() && s.cbegin() == s.cend(), what + " is not empty");
    }
#if MC_EXC
    error_code t = error_code::no_error;
    try { const auto s = n.address_exclude(o); (void) s; } catch (const ip::logic_error& x) { t = x.code(); }
    MC_CHECK(t == want, what + " throws " + S(t) + " instead of " + S(want));
#endif
}
template <int V> static void all_positions(mc::Ctx& c, u128 base, int maxdiff, int step) {
    for (int p = 0; p <= T<V>::W; p += step) for (int q = p; q <= T<V>::W && q <= p + maxdiff; ++q) {
        const u128 a = base & ref::netmask(V, p);
        c.range(uint64_t(1) << (q - p), 16, [&](uint64_t i) { contained<V>(c, a, p, a | (q ? u128(i) << (T<V>::W - q) : u128(0)), q, q - p <= 4); });
    }
}
// inner network along: all zero, all one, alternating, and all patterns with one or two set bits
template <int V> static void paths(mc::Ctx& c, u128 base, int step) {
    static const int d[] = { 9, 10, 11, 12, 16, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128 };
    for (int p = 0; p <= T<V>::W; p += step) for (size_t k = 0; k < sizeof d / sizeof *d; ++k) {
        const int q = p + d[k];
        if (q > T<V>::W) break;
        const u128 a = base & ref::netmask(V, p), m = ref::netmask(V, q) & ref::hostmask(V, p);
        const int n = q - p;
        c.range(uint64_t(3 + n + n), 4, [&](uint64_t i) {
            u128 x = 0;
            if (i == 0) x = 0; else if (i == 1) x = m; else if (i == 2) x = (ref::mk(0x5555555555555555ull, 0x5555555555555555ull)) & m;
            else if (i < 3 + uint64_t(n)) x = u128(1) << (T<V>::W - q + int(i - 3));
            else x = m ^ u128(1) << (T<V>::W - q + int(i - 3) - n);
            contained<V>(c, a, p, a | x, q, false);
        });
    }
}
static std::vector<u128> bases(int V) { std::vector<u128> b; b.push_back(0); b.push_back(ref::all(V)); b.push_back(V == 4 ? u128(0xC0A87F80) : ref::mk(0x20010db87fff8000ull, 0x7fffffff80000000ull)); return b; }

MC_SPACE(v4, "every prefix pair with difference up to 8 (thorough 10), every inner position, bottom, middle and top of the space") { const std::vector<u128> b = bases(4); for (size_t i = 0; i < b.size(); ++i) all_positions<4>(c, b[i], int(c.bound(8, 10, 3)), 1); }
MC_SPACE(v6, "every prefix pair with difference up to 6 (thorough 9), every inner position, bottom, middle and top of the space") { const std::vector<u128> b = bases(6); for (size_t i = 0; i < b.size(); ++i) all_positions<6>(c, b[i], int(c.bound(6, 9, 2)), int(c.bound(1, 1, 3))); }
MC_SPACE(paths4, "larger differences: inner position all zero, all one, alternating, and every single bit set or clear") { const std::vector<u128> b = bases(4); for (size_t i = 0; i < b.size(); ++i) paths<4>(c, b[i], 1); }
MC_SPACE(paths6, "larger differences: inner position all zero, all one, alternating, and every single bit set or clear") { const std::vector<u128> b = bases(6); for (size_t i = 0; i < b.size(); ++i) paths<6>(c, b[i], int(c.bound(5, 1, 16))); }

template <int V> static void not_contained(mc::Ctx& c, const std::vector<u128>& b, int step) {
    for (size_t i = 0; i < b.size(); ++i) for (int p = 0; p <= T<V>::W; p += p < T<V>::W - 2 ? step : 1) for (int q = 0; q <= T<V>::W; q += q < T<V>::W - 2 ? step : 1) {
        for (int k = 0; k < 4; ++k) {
            const u128 a = b[i] & ref::netmask(V, p);
            u128 o = b[i];
            if (k == 1) { if (!p) continue; o ^= u128(1) << (T<V>::W - p); }
            if (k == 2) o = ~o & ref::all(V);
            if (k == 3) o ^= u128(1) << (T<V>::W - 1);
            o &= ref::netmask(V, q);
            if (q >= p && (o & ref::netmask(V, p)) == a) continue;
            if (!c.take()) continue;
            c.state(mc::comb(mc::comb(mc::comb(ref::hi(a), ref::lo(a)), mc::comb(ref::hi(o), ref::lo(o))), p * 256 + q));
            const typename T<V>::network n = mk<V>(a, p), m = mk<V>(o, q);
            const std::string what = S(ref::net(V, a, p)) + " without " + S(ref::net(V, o, q));
            rejected(c, n, m, error_code::not_contained_network, what);
            rejected(c, ip_network(n), ip_network(m), error_code::not_contained_network, "ip_network " + what);
        }
    }
}
MC_SPACE(foreign4, "networks that are not contained: siblings, supernets, complements, every prefix pair") { not_contained<4>(c, bases(4), int(c.bound(1, 1, 6))); }
MC_SPACE(foreign6, "networks that are not contained: siblings, supernets, complements, prefix pairs") { not_contained<6>(c, bases(6), int(c.bound(3, 1, 30))); }
MC_SPACE(mixed, "networks of different versions, every prefix pair") {
    const u128 v6[] = { 0, u128(0xFFFF) << 32, ~u128(0) };
    const uint32_t v4[] = { 0, 0x0A000000, 0xFFFFFFFF };
    c.range(33 * 129 * 3, 16, [&](uint64_t i) {
        const int p = int(i % 33), q = int(i / 33 % 129), k = int(i / 33 / 129);
        const ip_network a = mk<4>(v4[k], p), b = mk<6>(v6[k], q);
        c.fresh();
        rejected(c, a, b, error_code::invalid_version, a.to_string() + " without " + b.to_string());
        rejected(c, b, a, error_code::invalid_version, b.to_string() + " without " + a.to_string());
    });
}
int main(int argc, char** argv) { return mc::main(argc, argv); }
