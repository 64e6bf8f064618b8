// C07: integer and byte conversions are exact inverses in network byte order.
#include "lib.hpp"
#include <sys/mman.h>

static void v4(mc::Ctx& c, uint32_t v) {
    const ipv4_address a = ipv4_address::from_uint(v);
    const uint8_t b[4] = { uint8_t(v >> 24), uint8_t(v >> 16), uint8_t(v >> 8), uint8_t(v) };
    MC_CHECK(a.to_uint() == v, "ipv4 from_uint(" + ref::show(v) + ").to_uint() is " + ref::show(a.to_uint()));
    MC_CHECK(uint32_t(a) == v, "ipv4 conversion operator of " + ref::show(v));
    MC_CHECK(std::memcmp(a.bytes().data(), b, 4) == 0 && std::memcmp(a.data(), b, 4) == 0 && a.bytes().size() == 4, "ipv4 bytes of " + ref::show(v));
    const ipv4_address::base_type arr = { b[0], b[1], b[2], b[3] };
    MC_CHECK(ipv4_address(arr) == a && ipv4_address::from_bytes(arr) == a && ipv4_address::from_bytes(b, 4) == a, "ipv4 from bytes of " + ref::show(v));
    MC_CHECK(ipv4_address::from_bytes(arr).to_uint() == v, "ipv4 from bytes to uint of " + ref::show(v));
    const ip_address x = ip_address::from_uint(v), y = ip_address(arr), z = ip_address::from_bytes(arr), w = ip_address::from_bytes(b, 4, ip_version::V4), q = a;
    MC_CHECK(x == q && y == q && z == q && w == q && x.is_v4() && y.is_v4() && z.is_v4() && w.is_v4(), "ip_address from " + ref::show(v));
    MC_CHECK(q.to_uint32() == v && R(q.to_uint128()) == v && uint32_t(q) == v && R(uint128_t(q)) == v && q.size() == 4, "ip_address value of " + ref::show(v));
    MC_CHECK(std::memcmp(q.data(), b, 4) == 0, "ip_address bytes of " + ref::show(v));
}
static void v6(mc::Ctx& c, u128 v) {
    const ipv6_address a = ipv6_address::from_uint(L(v));
    uint8_t b[16];
    for (int i = 0; i < 16; ++i) b[i] = uint8_t(v >> (120 - 8 * i));
    MC_CHECK(R(a.to_uint()) == v, "ipv6 from_uint(" + ref::show(v) + ").to_uint() is " + ref::show(R(a.to_uint())));
    MC_CHECK(R(uint128_t(a)) == v, "ipv6 conversion operator of " + ref::show(v));
    MC_CHECK(std::memcmp(a.bytes().data(), b, 16) == 0 && std::memcmp(a.data(), b, 16) == 0 && a.bytes().size() == 16, "ipv6 bytes of " + ref::show(v));
    ipv6_address::base_type arr{};
    for (int i = 0; i < 16; ++i) arr[i] = b[i];
    MC_CHECK(ipv6_address(arr) == a && ipv6_address::from_bytes(arr) == a && ipv6_address::from_bytes(b, 16) == a, "ipv6 from bytes of " + ref::show(v));
    MC_CHECK(R(ipv6_address::from_bytes(b, 16).to_uint()) == v, "ipv6 from bytes to uint of " + ref::show(v));
    const ip_address x = ip_address::from_uint(L(v)), y = ip_address(arr), z = ip_address::from_bytes(arr), w = ip_address::from_bytes(b, 16, ip_version::V6), q = a;
    MC_CHECK(x == q && y == q && z == q && w == q && x.is_v6() && y.is_v6() && z.is_v6() && w.is_v6(), "ip_address from " + ref::show(v));
    MC_CHECK(q.to_uint32() == uint32_t(v) && R(q.to_uint128()) == v && uint32_t(q) == uint32_t(v) && R(uint128_t(q)) == v && q.size() == 16, "ip_address value of " + ref::show(v));
    MC_CHECK(std::memcmp(q.data(), b, 16) == 0, "ip_address bytes of " + ref::show(v));
    // a scope id does not change the bytes
    ipv6_address s = a;
    error_code e = error_code::no_error;
    s.set_scope_id(std::string("eth0"), e);
    MC_CHECK(R(s.to_uint()) == v && std::memcmp(s.data(), b, 16) == 0, "scope id changes the bytes of " + ref::show(v));
}

MC_SPACE(ipv4_pairs_of_octets, "every value of two octets at every pair of positions, the others at 0, 1, 127, 255") {
    static const uint8_t rest[] = { 0, 1, 127, 128, 255 };
    for (int p = 0; p < 4; ++p) for (int q = p + 1; q < 4; ++q) {
        if (c.reduced() && q - p > 1) continue;
        c.range(65536 * 5, 256, [&](uint64_t i) {
            uint32_t v = rest[i % 5] * 0x01010101u;
            i /= 5;
            v = (v & ~(255u << 8 * p)) | uint32_t(i & 255) << 8 * p;
            v = (v & ~(255u << 8 * q)) | uint32_t(i >> 8) << 8 * q;
            c.fresh();
            v4(c, v);
            if (c.wants_sample()) c.sample("IPv4 value " + ref::show(v));
        });
    }
}
MC_SPACE(ipv4_pool, "boundary and bit-pattern IPv4 values") {
    const std::vector<uint32_t> p = en::pool4(true);
    for (size_t i = 0; i < p.size(); ++i) if (c.take()) { c.state(p[i]); v4(c, p[i]); }
}
MC_SPACE(ipv4_all, "thorough: all 2^32 values") {
    if (!c.thorough()) return;
    c.range(uint64_t(1) << 32, 1 << 16, [&](uint64_t i) {
        const uint32_t v = uint32_t(i);
        const ipv4_address a = ipv4_address::from_uint(v);
        const uint8_t* b = a.data();
        c.fresh();
        MC_CHECK(a.to_uint() == v && b[0] == uint8_t(v >> 24) && b[1] == uint8_t(v >> 16) && b[2] == uint8_t(v >> 8) && b[3] == uint8_t(v) && ipv4_address::from_bytes(b, 4).to_uint() == v, "ipv4 value " + ref::show(v));
    });
}
MC_SPACE(ipv6_bytes, "every value of every byte, alone and with every single other bit, and every 16-bit value of every group over four backgrounds") {
    static const int bg[] = { 0, 0xFF, 0xA5, 0x01 };
    c.range(16 * 256 * 129 * 2, 256, [&](uint64_t i) {
        const u128 base = i & 1 ? ~u128(0) : u128(0); i >>= 1;
        u128 v = base;
        const int bit = int(i % 129); i /= 129;
        const int pos = int(i / 256);
        v = (v & ~(u128(255) << 8 * pos)) | u128(i & 255) << 8 * pos;
        if (bit < 128) v ^= u128(1) << bit;
        c.fresh();
        v6(c, v);
    });
    if (!c.reduced()) c.range(8 * 65536 * 4, 256, [&](uint64_t i) {
        u128 v = 0;
        for (int k = 0; k < 16; ++k) v = v << 8 | u128(bg[i & 3]);
        i >>= 2;
        const int g = int(i >> 16) * 16;
        v = (v & ~(u128(0xFFFF) << g)) | u128(i & 0xFFFF) << g;
        c.fresh();
        v6(c, v);
    });
}
MC_SPACE(ipv6_pool, "boundary and bit-pattern IPv6 values") {
    const std::vector<u128> p = en::pool6(true);
    for (size_t i = 0; i < p.size(); ++i) if (c.take()) { c.state(mc::comb(ref::hi(p[i]), ref::lo(p[i]))); v6(c, p[i]); }
}
MC_SPACE(buffers, "raw buffers of every length 0..40 and six fillings, as IPv4, IPv6 and version-agnostic: zero-filled when short, excess ignored; exact-size heap blocks") {
    for (int n = 0; n <= 40; ++n) for (int f = 0; f < 6; ++f) {
        if (!c.take()) continue;
        c.state(mc::comb(n, f));
        std::string s;
        for (int i = 0; i < n; ++i) s += char(f == 0 ? 0xFF : f == 1 ? i + 1 : f == 2 ? 0 : f == 3 ? 255 - i : f == 4 ? 0x80 : i * 37);
        const Block<char> b(s);
        const uint8_t* p = reinterpret_cast<const uint8_t*>(b.p);
        uint32_t w4 = 0;
        u128 w6 = 0;
        for (int i = 0; i < 4; ++i) w4 = w4 << 8 | (i < n ? uint8_t(s[i]) : 0);
        for (int i = 0; i < 16; ++i) w6 = w6 << 8 | u128(i < n ? uint8_t(s[i]) : 0);
        const std::string t = "from_bytes of " + mc::num(n) + " bytes, filling " + mc::num(f);
        MC_CHECK(ipv4_address::from_bytes(p, n).to_uint() == w4, "ipv4 " + t);
        MC_CHECK(R(ipv6_address::from_bytes(p, n).to_uint()) == w6, "ipv6 " + t);
        MC_CHECK(ip_address::from_bytes(p, n, ip_version::V4) == ip_address(lib4(w4)), "ip_address V4 " + t);
        MC_CHECK(ip_address::from_bytes(p, n, ip_version::V6) == ip_address(lib6(w6)), "ip_address V6 " + t);
        if (n == 0) {
            MC_CHECK(ipv4_address::from_bytes(0, 0) == ipv4_address() && ipv6_address::from_bytes(0, 0) == ipv6_address(), "from_bytes(null, 0)");
        }
    }
}
MC_SPACE(large_buffers, "every buffer length 41..70000 and lengths around every power of two to 2^33: excess ignored") {
    static uint8_t* const p = [] { // only the first bytes are ever touched
        void* m = mmap(nullptr, (size_t(1) << 33) + 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) { std::fprintf(stderr, "cannot reserve 8 GB of address space\n"); std::exit(2); }
        for (int i = 0; i < 70000; ++i) static_cast<uint8_t*>(m)[i] = uint8_t(i * 7 + 1);
        return static_cast<uint8_t*>(m);
    }();
    u128 w6 = 0;
    for (int i = 0; i < 16; ++i) w6 = w6 << 8 | p[i];
    const uint32_t w4 = uint32_t(w6 >> 96);
    auto one = [&](size_t n) {
        const std::string t = "from_bytes of " + mc::num(n) + " bytes";
        MC_CHECK(ipv4_address::from_bytes(p, n).to_uint() == w4, "ipv4 " + t);
        MC_CHECK(R(ipv6_address::from_bytes(p, n).to_uint()) == w6, "ipv6 " + t);
        MC_CHECK(ip_address::from_bytes(p, n, ip_version::V4) == ip_address(lib4(w4)), "ip_address V4 " + t);
        MC_CHECK(ip_address::from_bytes(p, n, ip_version::V6) == ip_address(lib6(w6)), "ip_address V6 " + t);
    };
    c.range(c.reduced() ? 1000 : 70000 - 41, 64, [&](uint64_t i) { c.fresh(); one(size_t(i + 41)); });
    for (int k = 7; k <= 33; ++k) for (int d = -40; d <= 40; ++d) if (c.take()) { c.fresh(); one((size_t(1) << k) + size_t(d)); }
}
MC_SPACE(defaults, "default objects and template constants") {
    if (!c.take()) return;
    c.fresh();
    MC_CHECK(ipv4_address().to_uint() == 0 && R(ipv6_address().to_uint()) == 0 && ip_address().is_v4() && ip_address().to_uint32() == 0, "default addresses");
    MC_CHECK(ipv4_address::from_uint<0x01020304>().to_uint() == 0x01020304, "from_uint<>");
    MC_CHECK(ipv4_address::from_uint<0xFFFFFFFFu>() == lib4(0xFFFFFFFFu), "from_uint<>");
}

int main(int argc, char** argv) { return mc::main(argc, argv); }
