// C25: reverse DNS names are exact for every address.
#include "lib.hpp"

static void one(mc::Ctx& c, const ref::addr& r) {
    const std::string w = ref::reverse_pointer(r);
    std::string got = r.version == 4 ? lib4(uint32_t(r.value)).reverse_pointer() : lib6(r.value, r.scope).reverse_pointer();
    MC_CHECK(got == w, "reverse_pointer of " + S(r) + " is " + Q(got));
    got = liba(r).reverse_pointer();
    MC_CHECK(got == w, "ip_address reverse_pointer of " + S(r) + " is " + Q(got));
    if (c.wants_sample()) c.sample(got);
}
MC_SPACE(octets, "every value of two octets at every pair of positions over three backgrounds") {
    static const uint32_t bg[] = { 0, 0x0A630164u, 0xFFFFFFFFu };
    for (int p = 0; p < 4; ++p) for (int q = p + 1; q < 4; ++q) c.range(65536 * 3, 64, [&](uint64_t i) {
        uint32_t v = bg[i % 3]; i /= 3;
        v = (v & ~(255u << 8 * p)) | uint32_t(i & 255) << 8 * p;
        v = (v & ~(255u << 8 * q)) | uint32_t(i >> 8) << 8 * q;
        c.fresh();
        one(c, ref::addr(4, v));
    });
}
MC_SPACE(nibbles, "every value of two hex digits at every pair of positions over four backgrounds, without and with scope id") {
    static const uint64_t bg[] = { 0, 0x0123456789ABCDEFull, 0xFFFFFFFFFFFFFFFFull, 0xFEDCBA9876543210ull };
    c.range(32 * 32 * 256 * 4, 64, [&](uint64_t i) {
        u128 v = ref::mk(bg[i & 3], bg[i & 3]); i >>= 2;
        const int a = int(i & 15), b = int(i >> 4 & 15), p = int(i >> 8 & 31) * 4, q = int(i >> 13) * 4;
        v = (v & ~(u128(15) << p)) | u128(a) << p;
        v = (v & ~(u128(15) << q)) | u128(b) << q;
        c.fresh();
        one(c, ref::addr(6, v, i % 5 == 0 ? "eth0" : ""));
    });
}
MC_SPACE(pools, "boundary and bit-pattern addresses of both versions with eight scope ids") {
    const std::vector<uint32_t> p = en::pool4(true);
    for (size_t i = 0; i < p.size(); ++i) if (c.take()) { c.state(p[i]); one(c, ref::addr(4, p[i])); }
    const std::vector<u128> q = en::pool6(true);
    const std::vector<std::string> s = en::scopes();
    for (size_t i = 0; i < q.size(); ++i) for (size_t k = 0; k < s.size(); ++k) if (c.take()) { c.state(mc::comb(mc::comb(ref::hi(q[i]), ref::lo(q[i])), k)); one(c, ref::addr(6, q[i], s[k])); }
}
MC_SPACE(groups, "every 16-bit value of every group") {
    c.range(8 * 65536, 64, [&](uint64_t i) { c.fresh(); one(c, ref::addr(6, u128(i & 0xFFFF) << 16 * int(i >> 16))); });
}
MC_SPACE(all4, "thorough: every IPv4 address with its lower 24 bits exhaustive under eight first octets") {
    if (!c.thorough()) return;
    static const uint32_t hi[] = { 0, 1, 10, 99, 100, 127, 192, 255 };
    c.range(uint64_t(8) << 24, 4096, [&](uint64_t i) { c.fresh(); one(c, ref::addr(4, hi[i >> 24] << 24 | uint32_t(i & 0xFFFFFF))); });
}

int main(int argc, char** argv) { return mc::main(argc, argv); }
