// C27: optional results and byte arrays under every sequence of operations, and byte arrays compared in all pairs.
#include "lib.hpp"
#include <stdexcept>
#include <utility>

using ip::optional;
using ip::byte_array;

// ---- optional<T>
static ipv6_address scoped(u128 v, const char* s) { return lib6(v, s); }
template <typename X> struct Pool;
template <> struct Pool<uint8_t> { static std::vector<uint8_t> get() { std::vector<uint8_t> r; r.push_back(0); r.push_back(1); r.push_back(255); return r; } };
template <> struct Pool<bool> { static std::vector<bool> get() { std::vector<bool> r; r.push_back(false); r.push_back(true); return r; } };
template <> struct Pool<uint128_t> { static std::vector<uint128_t> get() { std::vector<uint128_t> r; r.push_back(uint128_t(0)); r.push_back(uint128_t(1, 0)); r.push_back(L(~u128(0))); return r; } };
template <> struct Pool<ipv4_address> { static std::vector<ipv4_address> get() { std::vector<ipv4_address> r; r.push_back(lib4(0)); r.push_back(lib4(0x01020304)); r.push_back(lib4(0xFFFFFFFFu)); return r; } };
template <> struct Pool<ipv6_address> { static std::vector<ipv6_address> get() { std::vector<ipv6_address> r; r.push_back(lib6(0)); r.push_back(scoped(1, "eth0")); r.push_back(scoped(1, "eth1")); return r; } };
template <> struct Pool<ip_network> { static std::vector<ip_network> get() { std::vector<ip_network> r; error_code e = error_code::no_error; r.push_back(ip_network()); r.push_back(ip_network(ipv4_network::from_address(lib4(0x0A000000u), e, 8))); r.push_back(ip_network(ipv6_network::from_address(scoped(1, "eth0"), e, 128))); return r; } };
template <> struct Pool<std::string> { static std::vector<std::string> get() { std::vector<std::string> r; r.push_back(""); r.push_back("a"); r.push_back("a text too long for the small-string buffer"); return r; } };
typedef std::pair<ipv4_address, ipv4_address> two;
template <> struct Pool<two> { static std::vector<two> get() { std::vector<two> r; r.push_back(two()); r.push_back(two(lib4(1), lib4(2))); r.push_back(two(lib4(2), lib4(1))); return r; } };

template <typename X> static std::string wrong(optional<X>& o, bool has, const X& v) {
    const optional<X>& k = o;
    if (o.has_value() != has || k.has_value() != has || bool(o) != has || bool(k) != has || !o == has || (o ? false : true) == has) return "has_value() " + B(o.has_value()) + ", bool " + B(bool(o)) + " instead of " + B(has);
    if (!has) return "";
    if (!(o.value() == v) || !(*o == v) || !(*o.operator->() == v) || !(k.value() == v) || !(*k == v) || !(*k.operator->() == v)) return "an accessor gives another value";
    optional<X> copy(o);
    const X moved = std::move(copy).value();
    const X cmoved = static_cast<const optional<X>&&>(o).value();
    if (!(moved == v) || !(cmoved == v) || !(o.value() == v)) return "the rvalue accessor gives another value";
    return "";
}

template <typename X> static void optionals(mc::Ctx& c, int depth, const char* type) {
    const std::vector<X> pool = Pool<X>::get();
    const int P = int(pool.size());
    const int ops = 1 + 3 * P /*=const&*/ + 3 * P /*=&&*/ + 3 /*=nullptr*/ + 9 /*copy=*/ + 3 /*swap*/ + 3 * P /*through reference*/ + 3 /*copy changed*/ + 6 /*move*/ + 3 /*default*/;
    uint64_t n = 1;
    for (int i = 0; i < depth; ++i) n *= uint64_t(ops);
    c.range(n, 256, [&](uint64_t idx) {
        optional<X> o[3] = { optional<X>(), optional<X>(nullptr), optional<X>(static_cast<const X&>(pool[1])) };
        bool has[3] = { false, false, true };
        X v[3] = { X(), X(), pool[1] };
        std::string log, bad;
        uint64_t code = idx;
        for (int d = 0; d < depth; ++d, code /= uint64_t(ops)) {
            int k = int(code % uint64_t(ops));
            if (k == 0) continue;
            --k;
            if (k < 3 * P) { const X x = pool[size_t(k % P)]; o[k / P] = x; has[k / P] = true; v[k / P] = x; log += " o" + mc::num(k / P) + "=value" + mc::num(k % P); continue; }
            k -= 3 * P;
            if (k < 3 * P) { const X x = pool[size_t(k % P)]; o[k / P] = X(x); has[k / P] = true; v[k / P] = x; log += " o" + mc::num(k / P) + "=X(value" + mc::num(k % P) + ")"; continue; }
            k -= 3 * P;
            if (k < 3) { o[k] = nullptr; has[k] = false; log += " o" + mc::num(k) + "=nullptr"; continue; }
            k -= 3;
            if (k < 9) { const int i = k / 3, j = k % 3; optional<X>& from = o[j]; o[i] = from; has[i] = has[j]; v[i] = v[j]; log += " o" + mc::num(i) + "=o" + mc::num(j); continue; }
            k -= 9;
            if (k < 3) { const int i = k, j = (k + 1) % 3; std::swap(o[i], o[j]); std::swap(has[i], has[j]); std::swap(v[i], v[j]); log += " swap(o" + mc::num(i) + ",o" + mc::num(j) + ")"; continue; }
            k -= 3;
            if (k < 3 * P) { // change the held value through an accessor
                const int i = k / P; const X x = pool[size_t(k % P)];
                if (!has[i]) continue;
                if (k % P == 0) *o[i] = x; else if (k % P == 1) o[i].value() = x; else *o[i].operator->() = x;
                v[i] = x; log += " *o" + mc::num(i) + "=value" + mc::num(k % P);
                continue;
            }
            k -= 3 * P;
            if (k < 3) {
                optional<X> copy(o[k]), made(static_cast<const X&>(pool[0])), temp((X(pool[1])));
                std::string t = wrong(copy, has[k], v[k]) + wrong<X>(made, true, pool[0]) + wrong<X>(temp, true, pool[1]);
                copy = X(pool[size_t(P - 1)]);
                t += wrong<X>(copy, true, pool[size_t(P - 1)]);
                made = nullptr;
                t += wrong<X>(made, false, pool[0]);
                if (!t.empty()) bad = "a copy: " + t;
                log += " change a copy of o" + mc::num(k);
                continue;
            }
            k -= 3;
            if (k < 6) { const int i = k / 2, j = (i + 1 + k % 2) % 3; o[i] = std::move(o[j]); has[i] = has[j]; v[i] = v[j]; o[j] = nullptr; has[j] = false; log += " o" + mc::num(i) + "=move(o" + mc::num(j) + ")"; continue; }
            k -= 6;
            o[k] = optional<X>(); has[k] = false; log += " o" + mc::num(k) + "=optional()";
        }
        uint64_t h = 0;
        for (int i = 0; i < 3; ++i) {
            int w = 0;
            for (int q = 0; q < P; ++q) if (has[i] && v[i] == X(pool[size_t(q)])) w = q + 1;
            h = mc::comb(h, uint64_t(w));
            const std::string t = wrong(o[i], has[i], v[i]);
            if (!t.empty()) bad = "o" + mc::num(i) + ": " + t;
        }
        c.state(h);
        if (c.wants_sample()) c.sample(std::string(type) + log);
        MC_CHECK(bad.empty(), std::string("optional<") + type + ">:" + log + ": " + bad);
    });
}
MC_SPACE(optional_values, "all operation sequences on three optionals of bytes and booleans, to the depth bound") { optionals<uint8_t>(c, int(c.bound(3, 4, 2)), "uint8_t"); optionals<bool>(c, int(c.bound(3, 4, 2)), "bool"); }
MC_SPACE(optional_integers, "the same of 128-bit integers") { optionals<uint128_t>(c, int(c.bound(3, 4, 2)), "uint128_t"); }
MC_SPACE(optional_addresses, "the same of IPv4 and IPv6 addresses and pairs of addresses") { optionals<ipv4_address>(c, int(c.bound(3, 4, 2)), "ipv4_address"); optionals<ipv6_address>(c, int(c.bound(3, 4, 2)), "ipv6_address"); optionals<two>(c, int(c.bound(3, 3, 2)), "pair"); }
MC_SPACE(optional_networks, "the same of version-agnostic networks") { optionals<ip_network>(c, int(c.bound(3, 3, 2)), "ip_network"); }
MC_SPACE(optional_strings, "the same of strings, whose copies own memory") { optionals<std::string>(c, int(c.bound(3, 4, 2)), "string"); }

// ---- byte_array<N>
template <size_t N> struct Model { uint8_t b[N + 1]; };
template <size_t N> static std::string differs(byte_array<N>& a, const uint8_t* m) {
    const byte_array<N>& k = a;
    if (a.size() != N || k.max_size() != N || a.empty() != (N == 0)) return "size(), max_size() or empty()";
    if (size_t(k.end() - k.begin()) != N || size_t(k.cend() - k.cbegin()) != N || size_t(k.rend() - k.rbegin()) != N || size_t(k.crend() - k.crbegin()) != N) return "the distance between the iterators";
    size_t i = 0;
    for (uint8_t x : k) { if (x != m[i++]) return "forward iteration"; }
    for (typename byte_array<N>::const_reverse_iterator it = k.rbegin(); it != k.rend(); ++it) if (*it != m[--i]) return "backward iteration";
    for (typename byte_array<N>::const_reverse_iterator it = k.crbegin(); it != k.crend(); ++it) ++i;
    for (typename byte_array<N>::const_iterator it = k.cbegin(); it != k.cend(); ++it) --i;
    if (i != 0) return "iteration";
    for (i = 0; i < N; ++i) if (a[i] != m[i] || k[i] != m[i] || a.at(i) != m[i] || k.at(i) != m[i] || a.data()[i] != m[i] || k.data()[i] != m[i] || k.begin()[i] != m[i]) return "element access";
    if (N && (a.front() != m[0] || k.front() != m[0] || a.back() != m[N - 1] || k.back() != m[N - 1])) return "front() or back()";
    return "";
}
template <size_t N> static std::string show(const uint8_t* m) { std::string r = "{"; for (size_t i = 0; i < N; ++i) r += (i ? "," : "") + mc::num(unsigned(m[i])); return r + "}"; }

template <size_t N> static void arrays(mc::Ctx& c, int depth) {
    static const uint8_t vals[] = { 0, 127, 128, 255 };
    const int ops = 1 + int(N) * 2 * 4 * 2 /*[] and at on both*/ + 8 /*front, back*/ + 3 /*swap, swap self, swap reversed*/ + 4 /*copy*/ + 1;
    uint64_t n = 1;
    for (int i = 0; i < depth; ++i) n *= uint64_t(ops);
    c.range(n, 512, [&](uint64_t idx) {
        byte_array<N> a = {}, b = {};
        uint8_t m[2][N + 1] = {};
        std::string log, bad;
        for (size_t i = 0; i < N; ++i) { b[i] = uint8_t(i + 1); m[1][i] = uint8_t(i + 1); }
        uint64_t code = idx;
        for (int d = 0; d < depth; ++d, code /= uint64_t(ops)) {
            int k = int(code % uint64_t(ops));
            if (k == 0) continue;
            --k;
            if (k < int(N) * 16) { const int who = k % 2, how = k / 2 % 2, val = k / 4 % 4, pos = k / 16; byte_array<N>& t = who ? b : a; if (how) t[size_t(pos)] = vals[val]; else t.at(size_t(pos)) = vals[val]; m[who][pos] = vals[val]; log += std::string(who ? " b[" : " a[") + mc::num(pos) + "]=" + mc::num(vals[val]); continue; }
            k -= int(N) * 16;
            if (k < 8) { if (!N) continue; const int who = k % 2, back = k / 2 % 2, val = k / 4 * 3; byte_array<N>& t = who ? b : a; if (back) t.back() = vals[val]; else t.front() = vals[val]; m[who][back ? N - 1 : 0] = vals[val]; log += std::string(who ? " b." : " a.") + (back ? "back" : "front") + "=" + mc::num(vals[val]); continue; }
            k -= 8;
            if (k < 3) { if (k == 0) a.swap(b); else if (k == 1) { a.swap(a); log += " a.swap(a)"; continue; } else b.swap(a); uint8_t t[N + 1]; std::memcpy(t, m[0], sizeof t); std::memcpy(m[0], m[1], sizeof t); std::memcpy(m[1], t, sizeof t); log += " swap"; continue; }
            k -= 3;
            if (k < 4) {
                if (k == 0) { a = b; std::memcpy(m[0], m[1], sizeof m[0]); log += " a=b"; }
                if (k == 1) { b = a; std::memcpy(m[1], m[0], sizeof m[0]); log += " b=a"; }
                if (k == 2) { byte_array<N>& self = a; a = self; log += " a=a"; }
                if (k == 3) { byte_array<N> copy(b); const std::string t = differs<N>(copy, m[1]); if (N) copy.data()[N / 2] ^= 0x55; if (!t.empty()) bad = "copy of b: " + t; log += " change a copy of b"; }
                continue;
            }
            for (size_t i = 0; i < N; ++i) { a.data()[i] = uint8_t(200 + i); m[0][i] = uint8_t(200 + i); }
            log += " a written through data()";
        }
        c.state(mc::hash(std::string(reinterpret_cast<char*>(m[0]), N) + std::string(reinterpret_cast<char*>(m[1]), N)));
        const std::string ta = differs<N>(a, m[0]), tb = differs<N>(b, m[1]);
        if (!ta.empty()) bad = "a should be " + show<N>(m[0]) + ": " + ta;
        if (!tb.empty()) bad = "b should be " + show<N>(m[1]) + ": " + tb;
        MC_CHECK(bad.empty(), "byte_array<" + mc::num(unsigned(N)) + ">:" + log + ": " + bad);
    });
}
MC_SPACE(array_sequences, "all sequences of writes, copies and swaps on two byte arrays of lengths 0 to 4 and 16, to the depth bound") {
    arrays<0>(c, int(c.bound(4, 5, 2))); arrays<1>(c, int(c.bound(4, 4, 2))); arrays<2>(c, int(c.bound(3, 4, 2))); arrays<3>(c, int(c.bound(3, 3, 2))); arrays<4>(c, int(c.bound(3, 3, 2))); arrays<16>(c, int(c.bound(2, 3, 1)));
}

template <size_t N> static std::string compared(const byte_array<N>& a, const byte_array<N>& b, int order) {
    if ((a == b) != (order == 0) || (a != b) != (order != 0)) return "== or !=";
    if ((a < b) != (order < 0) || (a > b) != (order > 0) || (a <= b) != (order <= 0) || (a >= b) != (order >= 0)) return "an ordering";
#if __cplusplus >= 202002L
    const auto r = a <=> b;
    if ((r < 0) != (order < 0) || (r > 0) != (order > 0) || (r == 0) != (order == 0)) return "<=>";
#endif
    return "";
}
template <size_t N> static void pairs(mc::Ctx& c, const std::vector<uint8_t>& alphabet) {
    uint64_t n = 1;
    for (size_t i = 0; i < N; ++i) n *= alphabet.size();
    c.range(n, 4, [&](uint64_t i) {
        c.fresh();
        for (uint64_t j = 0; j < n; ++j) {
            byte_array<N> a = {}, b = {};
            uint8_t m[2][N + 1] = {};
            uint64_t x = i, y = j;
            for (size_t p = 0; p < N; ++p, x /= alphabet.size(), y /= alphabet.size()) { if (N) { a.data()[p] = m[0][p] = alphabet[size_t(x % alphabet.size())]; b.data()[p] = m[1][p] = alphabet[size_t(y % alphabet.size())]; } }
            const std::string t = compared<N>(a, b, std::memcmp(m[0], m[1], N));
            MC_CHECK(t.empty(), "byte_array<" + mc::num(unsigned(N)) + "> " + show<N>(m[0]) + " and " + show<N>(m[1]) + ": " + t);
        }
    });
}
MC_SPACE(array_pairs, "all pairs of byte arrays of lengths 0 to 5 over boundary bytes, and of all single bytes") {
    std::vector<uint8_t> five, all;
    static const uint8_t b[] = { 0, 1, 127, 128, 255 };
    five.assign(b, b + 5);
    for (int i = 0; i < 256; ++i) all.push_back(uint8_t(i));
    pairs<0>(c, five); pairs<1>(c, all); pairs<2>(c, five); pairs<3>(c, five); pairs<4>(c, five);
    if (c.thorough()) pairs<5>(c, five);
}
MC_SPACE(array_positions, "byte arrays of length 16 that differ in one or two positions, every combination of bytes there") {
    static const uint8_t b[] = { 0, 1, 127, 128, 254, 255 };
    c.range(16 * 16, 4, [&](uint64_t idx) {
        c.fresh();
        const size_t p = size_t(idx / 16), q = size_t(idx % 16);
        for (int x = 0; x < 6 * 6 * 6 * 6; ++x) {
            byte_array<16> a = {}, d = {};
            a[p] = b[x % 6]; a[q] = b[x / 6 % 6]; d[p] = b[x / 36 % 6]; d[q] = b[x / 216];
            const std::string t = compared<16>(a, d, std::memcmp(a.data(), d.data(), 16));
            MC_CHECK(t.empty(), "byte_array<16> " + show<16>(a.data()) + " and " + show<16>(d.data()) + ": " + t);
        }
    });
}
#if MC_EXC
// Indexing beyond the end is documented to throw std::out_of_range.
template <typename A> static bool throws(A& a, size_t i, bool at) {
    try { if (at) (void) a.at(i); else (void) a[i]; } catch (const std::out_of_range&) { return true; }
    return false;
}
template <size_t N> static void beyond(mc::Ctx& c) {
    c.range(2 * N + 8, 1, [&](uint64_t idx) {
        static const size_t far[] = { size_t(-1), size_t(1) << 63, size_t(1) << 32, 65536, 256, 255, N + 1, N };
        const size_t i = idx < 2 * N ? size_t(idx) : far[idx - 2 * N];
        byte_array<N> a = {};
        const byte_array<N>& k = a;
        c.fresh();
        const bool want = i >= N;
        MC_CHECK(throws(a, i, true) == want && throws(k, i, true) == want && throws(a, i, false) == want && throws(k, i, false) == want, "byte_array<" + mc::num(unsigned(N)) + "> indexed with " + mc::num(uint64_t(i)) + (want ? " does not throw" : " throws"));
    });
}
MC_SPACE(array_bounds, "every index up to twice the length and far beyond, through both accessors") { beyond<0>(c); beyond<1>(c); beyond<2>(c); beyond<4>(c); beyond<16>(c); }
#endif

int main(int argc, char** argv) { return mc::main(argc, argv); }
