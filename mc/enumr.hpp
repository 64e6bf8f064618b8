// Enumerators shared by the harnesses. All deterministic.
#ifndef ENUMR_HPP
#define ENUMR_HPP
#include "mc.hpp"
#include "ref.hpp"
#include <set>

namespace en {
using ref::u128;

// every string of length lo..hi over an alphabet, shortest first; f(const S&)
template <typename S, typename F>
void strings(mc::Ctx& c, const S& alphabet, int lo, int hi, const F& f) {
    const uint64_t k = alphabet.size();
    for (int len = lo; len <= hi; ++len) {
        uint64_t n = 1;
        for (int i = 0; i < len; ++i) n *= k;
        S s(len, alphabet[0]);
        c.range(n, 1024, [&](uint64_t i) {
            for (int p = len; p-- > 0;) { s[p] = alphabet[i % k]; i /= k; }
            c.fresh();
            f(s);
        });
    }
}

// every text one edit (insert, replace, delete, swap neighbours, duplicate) away from s
template <typename S, typename A, typename F>
void edits(const S& s, const A& chars, const F& f) {
    typedef typename S::value_type T;
    for (size_t p = 0; p <= s.size(); ++p) {
        for (size_t k = 0; k < chars.size(); ++k) {
            S t = s; t.insert(p, 1, T(chars[k])); f(t);
            if (p < s.size() && s[p] != T(chars[k])) { t = s; t[p] = T(chars[k]); f(t); }
        }
        if (p < s.size()) { S t = s; t.erase(p, 1); f(t); }
        if (p + 1 < s.size()) { S t = s; std::swap(t[p], t[p + 1]); f(t); }
        for (size_t e = p + 1; e <= s.size(); ++e) { S t = s.substr(0, e) + s.substr(p, e - p) + s.substr(e); if (e - p > 1) f(t); }
        if (p > 0 && p < s.size()) { f(s.substr(0, p)); f(s.substr(p)); }
    }
}

inline std::string bytes_upto(int n) { std::string s; for (int i = 0; i < n; ++i) s += char(i); return s; }

// IPv4 numeric values: boundaries, bit patterns, special ranges
inline std::vector<uint32_t> pool4(bool large) {
    std::set<uint32_t> s;
    for (int i = 0; i <= 32; ++i) { const uint32_t m = uint32_t(ref::ones(i)); s.insert(m); s.insert(~m); if (i < 32) { s.insert(1u << i); s.insert(~(1u << i)); } }
    static const char* names[] = { "0.0.0.0", "1.2.3.4", "10.0.0.0", "10.255.255.255", "100.64.0.0", "127.0.0.1", "169.254.0.0", "172.16.0.0", "172.31.255.255",
        "192.0.0.0", "192.0.0.170", "192.0.2.0", "192.168.0.0", "192.168.255.255", "198.18.0.0", "198.51.100.7", "203.0.113.255", "224.0.0.0", "240.0.0.0", "255.255.255.255", "5.6.70.200" };
    for (size_t i = 0; i < sizeof names / sizeof *names; ++i) {
        uint32_t v = 0;
        ref::parse4(ref::widen(names[i]), v);
        s.insert(v); s.insert(v + 1); s.insert(v - 1);
        if (large) for (int b = 0; b < 32; ++b) s.insert(v ^ 1u << b);
    }
    if (large) for (int i = 0; i < 32; ++i) for (int j = 0; j < i; ++j) { s.insert(1u << i | 1u << j); s.insert(uint32_t(ref::ones(i) & ~ref::ones(j))); }
    return std::vector<uint32_t>(s.begin(), s.end());
}

// IPv6 numeric values
inline std::vector<u128> pool6(bool large) {
    std::set<u128> s;
    for (int i = 0; i <= 128; ++i) { const u128 m = ref::ones(i); s.insert(m); s.insert(~m); if (i < 128) { s.insert(u128(1) << i); if (large) s.insert(~(u128(1) << i)); } }
    static const char* names[] = { "::", "::1", "1:2:3:4:5:6:7:8", "2001:db8::1", "2001:db8:0:1:1:1:1:1", "fe80::1", "fec0::1", "fc00::", "ff02::2", "::ffff:192.168.0.1", "::ffff:8.8.8.8", "2001:0:4136:e378:8000:63bf:3fff:fdd2",
        "2002:c000:204::1", "64:ff9b::1", "100::1", "1:0:0:2:0:0:0:3", "0:1:0:1:0:1:0:1", "abcd:ef01:2345:6789:abcd:ef01:2345:6789", "1::8", "1:2::", "2001:2::", "2001:10::", "3fff::1", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:fffe" };
    for (size_t i = 0; i < sizeof names / sizeof *names; ++i) {
        ref::addr a;
        if (!ref::parse6(ref::widen(names[i]), a)) std::abort();
        s.insert(a.value); s.insert(a.value + 1); s.insert(a.value - 1);
        if (large) for (int b = 0; b < 128; ++b) s.insert(a.value ^ u128(1) << b);
    }
    return std::vector<u128>(s.begin(), s.end());
}

inline std::vector<std::string> scopes() {
    std::vector<std::string> r;
    r.push_back(""); r.push_back("1"); r.push_back("eth0"); r.push_back("0"); r.push_back("ABCDEFGHIJKLMNOP"); r.push_back("a:b.c"); r.push_back("4294967295"); r.push_back("2");
    return r;
}

} // namespace en
#endif // ENUMR_HPP
