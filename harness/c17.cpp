// C17: 128-bit integer arithmetic against the compiler's own 128-bit integers.
#include "lib.hpp"
#include <algorithm>
#include <functional>
#include <limits>

typedef __int128 s128;
static std::string H(u128 v) { char b[64]; std::snprintf(b, sizeof b, "0x%llx'%016llx", (unsigned long long) ref::hi(v), (unsigned long long) ref::lo(v)); return b; }

// binary operators, comparisons and the assigning forms on one pair
static void pair(mc::Ctx& c, u128 a, u128 b) {
    const uint128_t x = L(a), y = L(b);
    uint128_t z;
#define OP(o, e) do { const u128 want = (e); \
    if (R(x o y) != want) c.fail(H(a) + " " #o " " + H(b) + " = " + H(R(x o y))); \
    z = x; uint128_t& back = (z o##= y); if (R(z) != want || &back != &z) c.fail(H(a) + " " #o "= " + H(b) + " = " + H(R(z))); } while (0)
    OP(+, a + b); OP(-, a - b); OP(*, a * b); OP(&, a & b); OP(|, a | b); OP(^, a ^ b);
    OP(/, b ? a / b : 0);
    OP(%, b ? a % b : a);
#undef OP
#define REL(o) if ((x o y) != (a o b)) c.fail(H(a) + " " #o " " + H(b) + " is " + B(x o y))
    REL(==); REL(!=); REL(<); REL(<=); REL(>); REL(>=); REL(&&); REL(||);
#undef REL
#ifdef IPADDRESS_HAS_SPACESHIP_OPERATOR
    if (((x <=> y) < 0) != (a < b) || ((x <=> y) == 0) != (a == b)) c.fail(H(a) + " <=> " + H(b));
#endif
    c.step(24);
}

static std::vector<u128> limbs(const std::vector<uint32_t>& l) {
    std::vector<u128> r;
    for (size_t i = 0; i < l.size(); ++i) for (size_t j = 0; j < l.size(); ++j) for (size_t k = 0; k < l.size(); ++k) for (size_t m = 0; m < l.size(); ++m)
        r.push_back(u128(l[i]) << 96 | u128(l[j]) << 64 | u128(l[k]) << 32 | l[m]);
    return r;
}
static std::vector<u128> limb_pool(const mc::Ctx& c) {
    static const uint32_t q[] = { 0, 1, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu }, t[] = { 2, 3, 0x10000, 0xffff0000u };
    std::vector<uint32_t> l(q, q + (c.reduced() ? 4 : 7));
    if (!c.reduced()) l.insert(l.end(), t, t + (c.thorough() ? 4 : 2));
    return limbs(l);
}

// bounds, powers of two and of ten and their neighbours
static std::vector<u128> edge_pool(bool large) {
    std::set<u128> s;
    for (int i = 0; i < 128; ++i) for (int d = -1; d <= 1; ++d) { s.insert((u128(1) << i) + u128(d)); s.insert(~((u128(1) << i) + u128(d))); }
    u128 p = 1;
    for (int i = 0; i < 39; ++i, p *= 10) { s.insert(p); if (large) { s.insert(p - 1); s.insert(p + 1); } }
    const u128 x = ref::mk(0x0123456789abcdefULL, 0xfedcba9876543210ULL);
    s.insert(x); s.insert(~x); s.insert(ref::mk(0xaaaaaaaaaaaaaaaaULL, 0x5555555555555555ULL)); s.insert(ref::mk(0x5555555555555555ULL, 0xaaaaaaaaaaaaaaaaULL));
    if (large) for (int i = 0; i < 128; ++i) s.insert(x << i | x >> (i ? 128 - i : 127));
    return std::vector<u128>(s.begin(), s.end());
}

MC_SPACE(limbs, "every pair of integers whose four 32-bit digits come from the boundary digits") {
    const std::vector<u128> v = limb_pool(c);
    c.range(uint64_t(v.size()) * v.size(), 4096, [&](uint64_t i) { c.fresh(); pair(c, v[size_t(i / v.size())], v[size_t(i % v.size())]); });
}

MC_SPACE(edges, "every pair of boundary values, powers and bit patterns") {
    const std::vector<u128> v = edge_pool(!c.reduced());
    c.range(uint64_t(v.size()) * v.size(), 256, [&](uint64_t i) {
        const u128 a = v[size_t(i / v.size())], b = v[size_t(i % v.size())];
        c.fresh();
        if (c.wants_sample()) c.sample(H(a) + " op " + H(b));
        pair(c, a, b);
    });
}

MC_SPACE(small, "all pairs of small integers, scaled by powers of two") {
    const uint64_t n = uint64_t(c.bound(48, 128, 20));
    c.range(n * n * 16 * 16, 1024, [&](uint64_t i) {
        const u128 a = i % n, b = (i / n) % n; i /= n * n;
        c.fresh();
        pair(c, a << (i % 16 * 8), b << (i / 16 * 8));
    });
}

MC_SPACE(recombine, "dividends q * d + r for every q, d of the pool and extreme remainders: quotient and remainder are q and r") {
    const std::vector<u128> v = edge_pool(false);
    c.range(uint64_t(v.size()) * v.size(), 256, [&](uint64_t i) {
        const u128 q = v[size_t(i / v.size())], d = v[size_t(i % v.size())];
        if (!d || !q || q > ~u128(0) / d) return;
        c.fresh();
        const u128 r[] = { 0, 1, d / 2, d - 2, d - 1 };
        for (int k = 0; k < 5; ++k) {
            if (r[k] >= d || q * d > ~u128(0) - r[k]) continue;
            const u128 n = q * d + r[k];
            MC_CHECK(R(L(n) / L(d)) == q && R(L(n) % L(d)) == r[k], H(n) + " divided by " + H(d) + " is " + H(R(L(n) / L(d))) + " rest " + H(R(L(n) % L(d))));
            MC_CHECK(L(n) / L(d) * L(d) + L(n) % L(d) == L(n), H(n) + " not recombined from its quotient by " + H(d));
            pair(c, n, d);
        }
    });
}

template <typename I> static void shift_by(mc::Ctx& c, u128 a, unsigned n, const char* type) {
    if (n > (unsigned long long) std::numeric_limits<I>::max()) return;
    const I k = I(n);
    const uint128_t x = L(a);
    const u128 l = n < 128 ? a << n : 0, r = n < 128 ? a >> n : 0;
    MC_CHECK(R(x << k) == l, H(a) + " << " + mc::num(n) + " (" + type + ") = " + H(R(x << k)));
    MC_CHECK(R(x >> k) == r, H(a) + " >> " + mc::num(n) + " (" + type + ") = " + H(R(x >> k)));
    uint128_t z = x;
    MC_CHECK(&(z <<= k) == &z && R(z) == l, H(a) + " <<= " + mc::num(n) + " (" + type + ")");
    z = x;
    MC_CHECK(&(z >>= k) == &z && R(z) == r, H(a) + " >>= " + mc::num(n) + " (" + type + ")");
}

MC_SPACE(shifts, "every shift amount from 0 to 300 and extreme ones, of every integer type") {
    const std::vector<u128> v = edge_pool(!c.reduced());
    const unsigned more[] = { 511, 512, 1023, 32767, 32768, 65535, 65536, 0x7fffffffu, 0x80000000u, 0xffffffffu };
    c.range(uint64_t(v.size()) * 311, 256, [&](uint64_t i) {
        const u128 a = v[size_t(i / 311)];
        const unsigned n = i % 311 <= 300 ? unsigned(i % 311) : more[i % 311 - 301];
        c.fresh();
        shift_by<int>(c, a, n, "int"); shift_by<unsigned>(c, a, n, "unsigned"); shift_by<long long>(c, a, n, "long long"); shift_by<unsigned long long>(c, a, n, "unsigned long long");
        shift_by<long>(c, a, n, "long"); shift_by<unsigned long>(c, a, n, "unsigned long"); shift_by<short>(c, a, n, "short"); shift_by<unsigned short>(c, a, n, "unsigned short");
        shift_by<signed char>(c, a, n, "signed char"); shift_by<unsigned char>(c, a, n, "unsigned char"); shift_by<char>(c, a, n, "char");
    });
}

MC_SPACE(unary, "unary operators, increments, truth, hash, swap and conversions to every built-in integer") {
    std::vector<u128> v = edge_pool(true);
    const std::vector<u128> l = limb_pool(c);
    v.insert(v.end(), l.begin(), l.end());
    c.range(v.size(), 64, [&](uint64_t i) {
        const u128 a = v[size_t(i)];
        const uint128_t x = L(a);
        c.fresh();
        MC_CHECK(x.upper() == ref::hi(a) && x.lower() == ref::lo(a), H(a) + " halves");
        MC_CHECK(R(+x) == a && R(-x) == u128(0) - a && R(~x) == ~a, H(a) + " unary + - ~");
        MC_CHECK(!x == !a && bool(x) == bool(a) && (x ? a != 0 : a == 0), H(a) + " as a truth value");
        uint128_t z = x;
        MC_CHECK(&++z == &z && R(z) == a + 1, H(a) + " ++x");
        MC_CHECK(&--z == &z && R(z) == a, H(a) + " --x");
        MC_CHECK(R(z++) == a && R(z) == a + 1, H(a) + " x++");
        MC_CHECK(R(z--) == a + 1 && R(z) == a, H(a) + " x--");
        MC_CHECK(&--z == &z && R(z) == a - 1, H(a) + " --x from the value");
        z = x;
        MC_CHECK(R(z += z) == a + a, H(a) + " x += x"); z = x;
        MC_CHECK(R(z -= z) == 0, H(a) + " x -= x"); z = x;
        MC_CHECK(R(z *= z) == a * a, H(a) + " x *= x"); z = x;
        MC_CHECK(R(z /= z) == u128(a ? 1 : 0), H(a) + " x /= x"); z = x;
        MC_CHECK(R(z %= z) == 0, H(a) + " x %= x"); z = x;
        MC_CHECK(R(z ^= z) == 0, H(a) + " x ^= x"); z = x;
        MC_CHECK(R(z &= z) == a && R(z |= z) == a, H(a) + " x &= x");
        const uint128_t& alias = z;
        z = alias;
        MC_CHECK(R(z) == a, H(a) + " x = x");
        uint128_t w = L(~a);
        z.swap(w);
        MC_CHECK(R(z) == ~a && R(w) == a, H(a) + " swap");
        z.swap(z);
        MC_CHECK(R(z) == ~a, H(a) + " swap with itself");
        uint128_t moved(std::move(w));
        MC_CHECK(R(moved) == a, H(a) + " move");
        MC_CHECK(x.hash() == L(a).hash(), H(a) + " hash");
#ifndef IPADDRESS_NO_OVERLOAD_STD
        MC_CHECK(std::hash<uint128_t>()(x) == x.hash(), H(a) + " std::hash");
        using std::swap;
        std::swap(z, moved);
        MC_CHECK(R(z) == a && R(moved) == ~a, H(a) + " std::swap");
        MC_CHECK(R(std::abs(x)) == a, H(a) + " std::abs");
#endif
#define TO(t) MC_CHECK(t(x) == t(a) && static_cast<t>(x) == static_cast<t>(a), H(a) + " to " #t)
        typedef unsigned long long ull; typedef long long ll; typedef unsigned long ul; typedef unsigned short us; typedef unsigned char uc; typedef signed char sc;
        TO(ull); TO(ll); TO(ul); TO(long); TO(unsigned); TO(int); TO(us); TO(short); TO(uc); TO(sc); TO(char);
#undef TO
    });
}

// one built-in operand, on either side
template <typename I> static void mixed(mc::Ctx& c, u128 a, I k, const char* type) {
    const u128 b = std::is_signed<I>::value ? u128(s128(k)) : u128(k);
    const uint128_t x = L(a);
    const std::string n = H(a) + " with " + type + " " + H(b);
    const uint128_t y(k);
    MC_CHECK(R(y) == b, n + " construction gives " + H(R(y)));
    uint128_t z;
    z = k;
    MC_CHECK(R(z) == b, n + " assignment");
    MC_CHECK(R(x + k) == a + b && R(k + x) == a + b, n + " +");
    MC_CHECK(R(x - k) == a - b && R(k - x) == b - a, n + " -");
    MC_CHECK(R(x * k) == a * b && R(k * x) == a * b, n + " *");
    MC_CHECK(R(x / k) == (b ? a / b : 0) && R(k / x) == (a ? b / a : 0), n + " /");
    MC_CHECK(R(x % k) == (b ? a % b : a) && R(k % x) == (a ? b % a : b), n + " %");
    MC_CHECK(R(x & k) == (a & b) && R(k & x) == (a & b), n + " &");
    MC_CHECK(R(x | k) == (a | b) && R(k | x) == (a | b), n + " |");
    MC_CHECK(R(x ^ k) == (a ^ b) && R(k ^ x) == (a ^ b), n + " ^");
    MC_CHECK((x == k) == (a == b) && (k == x) == (a == b), n + " ==");
    MC_CHECK((x != k) == (a != b) && (k != x) == (a != b), n + " !=");
    MC_CHECK((x < k) == (a < b) && (k < x) == (b < a), n + " <");
    MC_CHECK((x > k) == (a > b) && (k > x) == (b > a), n + " >");
    MC_CHECK((x <= k) == (a <= b) && (k <= x) == (b <= a), n + " <=");
    MC_CHECK((x >= k) == (a >= b) && (k >= x) == (b >= a), n + " >=");
    z = x; z += k; MC_CHECK(R(z) == a + b, n + " +=");
    z = x; z -= k; MC_CHECK(R(z) == a - b, n + " -=");
    z = x; z *= k; MC_CHECK(R(z) == a * b, n + " *=");
    z = x; z /= k; MC_CHECK(R(z) == (b ? a / b : 0), n + " /=");
    z = x; z %= k; MC_CHECK(R(z) == (b ? a % b : a), n + " %=");
    z = x; z &= k; MC_CHECK(R(z) == (a & b), n + " &=");
    z = x; z |= k; MC_CHECK(R(z) == (a | b), n + " |=");
    z = x; z ^= k; MC_CHECK(R(z) == (a ^ b), n + " ^=");
}
template <typename I> static void mixed_all(mc::Ctx& c, const char* type) {
    const std::vector<u128> v = edge_pool(false);
    std::set<I> s;
    const I lo = std::numeric_limits<I>::min(), hi = std::numeric_limits<I>::max();
    const I base[] = { lo, I(lo + 1), hi, I(hi - 1), I(hi / 2), I(0), I(1), I(2), I(3), I(10), I(-1), I(-2), I(100) };
    for (size_t i = 0; i < 13; ++i) s.insert(base[i]);
    for (int i = 0; i < int(sizeof(I) * 8); ++i) s.insert(I(1ULL << i));
    const std::vector<I> k(s.begin(), s.end());
    c.range(uint64_t(v.size()) * k.size(), 256, [&](uint64_t i) { c.fresh(); mixed<I>(c, v[size_t(i / k.size())], k[size_t(i % k.size())], type); });
}
MC_SPACE(mixed, "every boundary value with boundary values of every built-in integer type, on either side") {
    mixed_all<unsigned long long>(c, "unsigned long long"); mixed_all<long long>(c, "long long"); mixed_all<unsigned long>(c, "unsigned long"); mixed_all<long>(c, "long");
    mixed_all<unsigned>(c, "unsigned"); mixed_all<int>(c, "int"); mixed_all<unsigned short>(c, "unsigned short"); mixed_all<short>(c, "short");
    mixed_all<unsigned char>(c, "unsigned char"); mixed_all<signed char>(c, "signed char"); mixed_all<char>(c, "char");
}

MC_SPACE(bools, "boolean and character operands") {
    const std::vector<u128> v = edge_pool(false);
    c.range(v.size(), 16, [&](uint64_t i) {
        const u128 a = v[size_t(i)];
        const uint128_t x = L(a);
        c.fresh();
        MC_CHECK(R(x + true) == a + 1 && R(true + x) == a + 1 && R(x - false) == a && (x == true) == (a == 1) && (x != false) == (a != 0) && R(uint128_t(true)) == 1, H(a) + " with bool");
        MC_CHECK(R(x + L'\x7f') == a + 127 && R(x * u'\xffff') == a * 0xffff && R(U'\xffffffff' ^ x) == (a ^ 0xffffffffu), H(a) + " with wide characters");
        MC_CHECK(R(2.75 + x) == a + 2 && R(3.5f * x) == a * 3 && R(1e19 - x) == u128(1e19) - a && R(7.9L % x) == (a ? 7 % a : 7) && R(18446744073709551616.0 / x) == (a ? (u128(1) << 64) / a : 0), H(a) + " with a floating left operand");
    });
}

MC_SPACE(limits, "numeric_limits") {
    if (!c.take()) return;
    c.fresh();
#ifndef IPADDRESS_NO_OVERLOAD_STD
    typedef std::numeric_limits<uint128_t> N;
    MC_CHECK(N::is_specialized && N::is_integer && N::is_exact && N::is_modulo && N::is_bounded && !N::is_signed && N::digits == 128 && N::digits10 == 38 && N::radix == 2, "traits");
    typedef std::numeric_limits<uint64_t> M; // whatever does not depend on the width
    MC_CHECK(N::is_specialized == M::is_specialized && N::is_integer == M::is_integer && N::is_exact == M::is_exact && N::is_modulo == M::is_modulo && N::is_bounded == M::is_bounded && N::is_signed == M::is_signed && N::radix == M::radix && N::is_iec559 == M::is_iec559, "traits as for std::uint64_t");
    MC_CHECK(N::has_infinity == M::has_infinity && N::has_quiet_NaN == M::has_quiet_NaN && N::has_signaling_NaN == M::has_signaling_NaN && N::has_denorm_loss == M::has_denorm_loss && N::tinyness_before == M::tinyness_before && int(N::has_denorm) == int(M::has_denorm) && N::round_style == M::round_style, "floating traits as for std::uint64_t");
    MC_CHECK(N::max_digits10 == 0 && N::max_exponent == 0 && N::max_exponent10 == 0 && N::min_exponent == 0 && N::min_exponent10 == 0 && R(N::epsilon()) == 0 && R(N::round_error()) == 0 && R(N::infinity()) == 0 && R(N::quiet_NaN()) == 0 && R(N::signaling_NaN()) == 0 && R(N::denorm_min()) == 0, "floating constants");
    typedef std::numeric_limits<const uint128_t> NC;
    typedef std::numeric_limits<volatile uint128_t> NV;
    typedef std::numeric_limits<const volatile uint128_t> NCV;
    MC_CHECK(NC::digits == 128 && NV::digits == 128 && NCV::digits == 128 && NC::is_integer && NV::is_integer && NCV::is_integer && R((NC::max)()) == ~u128(0), "traits of qualified types");
    MC_CHECK(R((N::min)()) == 0 && R(N::lowest()) == 0 && R((N::max)()) == ~u128(0), "limits");
#endif
    MC_CHECK(R(uint128_t()) == 0, "default value");
}

// histories: every sequence of assigning operations on an accumulator and a second register
MC_SPACE(histories, "every sequence of assigning operations, with a second register, to the depth bound; states counted") {
    const int depth = int(c.bound(4, 5, 3));
    const u128 seeds[] = { 0, 1, ~u128(0), ref::mk(1, 0), ref::mk(0x0123456789abcdefULL, 0xfedcba9876543210ULL), ref::mk(0, ~0ULL), ref::mk(0x8000000000000000ULL, 0) };
    const int K = 24;
    uint64_t n = 1;
    for (int i = 0; i < depth; ++i) n *= K;
    c.range(n * 7, 1024, [&](uint64_t idx) {
        u128 a = seeds[idx / n], b = seeds[(idx / n + 2) % 7];
        uint128_t x = L(a), y = L(b);
        uint64_t code = idx % n;
        std::string log;
        for (int d = 0; d < depth; ++d, code /= K) {
            const int op = int(code % K);
            switch (op) {
                case 0: x += y; a += b; break;
                case 1: x -= y; a -= b; break;
                case 2: x *= y; a *= b; break;
                case 3: x /= y; a = b ? a / b : 0; break;
                case 4: x %= y; a = b ? a % b : a; break;
                case 5: x &= y; a &= b; break;
                case 6: x |= y; a |= b; break;
                case 7: x ^= y; a ^= b; break;
                case 8: ++x; ++a; break;
                case 9: --x; --a; break;
                case 10: x = ~x; a = ~a; break;
                case 11: x = -x; a = u128(0) - a; break;
                case 12: x <<= 1; a <<= 1; break;
                case 13: x >>= 1; a >>= 1; break;
                case 14: x <<= 33; a <<= 33; break;
                case 15: x >>= 65; a >>= 65; break;
                case 16: x.swap(y); std::swap(a, b); break;
                case 17: y = x; b = a; break;
                case 18: x *= 10; a *= 10; break;
                case 19: x /= 10; a /= 10; break;
                case 20: y = x++; b = a++; break;
                case 21: x = y - x; a = b - a; break;
                case 22: x <<= 128; a = 0; break;
                case 23: x %= 1000000007; a %= 1000000007; break;
            }
            c.state(mc::comb(mc::comb(ref::hi(a), ref::lo(a)), mc::comb(ref::hi(b), ref::lo(b))));
            c.step(2);
            if (R(x) != a || R(y) != b || (x < y) != (a < b) || (x == y) != (a == b)) { c.fail("after " + mc::num(d + 1) + " operations of history " + mc::num(idx) + ": " + H(R(x)) + ", " + H(R(y)) + " instead of " + H(a) + ", " + H(b)); return; }
        }
    });
}

int main(int argc, char** argv) { return mc::main(argc, argv); }
