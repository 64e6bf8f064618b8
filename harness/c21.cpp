// C21: embedded IPv4 addresses are extracted exactly from the defined prefixes.
#include "lib.hpp"

static void one(mc::Ctx& c, u128 v, const std::string& scope = "") {
    const ipv6_address a = lib6(v, scope);
    const ip_address x = a;
    const std::string n = S(a);
    const auto m = a.ipv4_mapped(), s = a.sixtofour();
    const auto t = a.teredo();
    const auto xm = x.ipv4_mapped(), xs = x.sixtofour();
    const auto xt = x.teredo();
    const bool hm = v >> 32 == 0xFFFF, hs = v >> 112 == 0x2002, ht = v >> 96 == 0x20010000;
    MC_CHECK(m.has_value() == hm && xm.has_value() == hm && bool(m) == hm, n + " ipv4_mapped present: " + B(m.has_value()));
    if (hm && m && xm) MC_CHECK(m.value().to_uint() == uint32_t(v) && xm.value() == m.value(), n + " ipv4_mapped is " + S(m.value()));
    MC_CHECK(s.has_value() == hs && xs.has_value() == hs, n + " sixtofour present: " + B(s.has_value()));
    if (hs && s && xs) MC_CHECK(s.value().to_uint() == uint32_t(v >> 80) && xs.value() == s.value(), n + " sixtofour is " + S(s.value()));
    MC_CHECK(t.has_value() == ht && xt.has_value() == ht, n + " teredo present: " + B(t.has_value()));
    if (ht && t && xt) MC_CHECK(t.value().first.to_uint() == uint32_t(v >> 64) && t.value().second.to_uint() == ~uint32_t(v) && xt.value().first == t.value().first && xt.value().second == t.value().second,
        n + " teredo is " + S(t.value().first) + ", " + S(t.value().second));
    if (c.wants_sample()) c.sample(n + " mapped=" + B(hm) + " 6to4=" + B(hs) + " teredo=" + B(ht));
}
static void four(mc::Ctx& c, uint32_t v) {
    const ipv4_address a = lib4(v);
    const ip_address x = a;
    MC_CHECK(!x.ipv4_mapped() && !x.sixtofour() && !x.teredo(), S(a) + " as ip_address has an embedded address");
    one(c, u128(0xFFFF) << 32 | v);
    one(c, u128(0x2002) << 112 | u128(v) << 80);
    one(c, u128(0x2002) << 112 | u128(v) << 80 | u128(~v));
    one(c, u128(0x20010000) << 96 | u128(v) << 64 | u128(~v));
    one(c, u128(0x20010000) << 96 | u128(~v) << 64 | u128(v) | u128(0xFFFF) << 32);
    one(c, v);
}
// every address whose prefix differs from a defined prefix in up to two bits
static const u128 prefixes[] = { u128(0xFFFF) << 32, u128(0x2002) << 112, u128(0x20010000) << 96, u128(0), u128(0x2001) << 112 | u128(0xdb8) << 96, u128(0x64ff9b) << 96, u128(0xFFFFFFFF) << 32, u128(0xFFFF) << 48 };
MC_SPACE(prefix_bits, "eight prefixes with none, one or two of the 128 bits changed, over five suffixes") {
    static const uint64_t suf[] = { 0, 0x01020304, 0xFFFFFFFF, 0xC0A80001, 0x80000000 };
    c.range(uint64_t(8) * 129 * 129 * 5, 256, [&](uint64_t i) {
        u128 v = prefixes[i % 8] | suf[i / 8 % 5]; i /= 40;
        const int a = int(i % 129), b = int(i / 129);
        if (b < a && b) return;
        if (a < 128) v ^= u128(1) << a;
        if (b < 128 && b != a) v ^= u128(1) << b;
        c.state(mc::comb(ref::hi(v), ref::lo(v)));
        one(c, v, i % 3 == 0 ? "eth0" : "");
    });
}
MC_SPACE(bytes, "every value of every byte position over eight prefixes, and every pair of byte values in the prefix bytes") {
    c.range(8 * 16 * 256, 64, [&](uint64_t i) {
        const u128 p = prefixes[i % 8]; i /= 8;
        const int k = int(i >> 8) * 8;
        one(c, (p & ~(u128(255) << k)) | u128(i & 255) << k);
        c.fresh();
    });
    c.range(4 * 65536, 64, [&](uint64_t i) {
        const int k = int(i >> 16);
        const u128 g = i & 0xFFFF;
        c.fresh();
        if (k == 0) one(c, g << 112 | 0x01020304);
        if (k == 1) one(c, u128(0x2001) << 112 | g << 96 | 0x0506);
        if (k == 2) one(c, g << 32 | 0x7F000001);
        if (k == 3) one(c, u128(0xFFFF) << 32 | g << 48 | 0x7F000001);
    });
}
MC_SPACE(embedded, "every value of two octets at every pair of positions, embedded every way") {
    for (int p = 0; p < 4; ++p) for (int q = p + 1; q < 4; ++q) c.range(65536, 64, [&](uint64_t i) {
        uint32_t v = 0x0A630164u;
        v = (v & ~(255u << 8 * p)) | uint32_t(i & 255) << 8 * p;
        v = (v & ~(255u << 8 * q)) | uint32_t(i >> 8) << 8 * q;
        c.fresh();
        four(c, v);
    });
    const std::vector<uint32_t> p = en::pool4(true);
    for (size_t i = 0; i < p.size(); ++i) if (c.take()) { c.state(p[i]); four(c, p[i]); }
}
MC_SPACE(pool, "boundary and bit-pattern IPv6 values") {
    const std::vector<u128> p = en::pool6(true);
    for (size_t i = 0; i < p.size(); ++i) if (c.take()) { c.state(mc::comb(ref::hi(p[i]), ref::lo(p[i]))); one(c, p[i]); one(c, p[i], "7"); }
}
MC_SPACE(all_embedded, "thorough: all 2^32 IPv4 values mapped, 6to4 and Teredo") {
    if (!c.thorough()) return;
    c.range(uint64_t(1) << 32, 1 << 14, [&](uint64_t i) {
        const uint32_t v = uint32_t(i);
        const auto m = lib6(u128(0xFFFF) << 32 | v).ipv4_mapped(), s = lib6(u128(0x2002) << 112 | u128(v) << 80).sixtofour();
        const auto t = lib6(u128(0x20010000) << 96 | u128(v) << 64 | u128(v)).teredo();
        c.fresh();
        MC_CHECK(m && m.value().to_uint() == v && s && s.value().to_uint() == v && t && t.value().first.to_uint() == v && t.value().second.to_uint() == ~v, "embedded " + ref::show(v));
    });
}

int main(int argc, char** argv) { return mc::main(argc, argv); }
