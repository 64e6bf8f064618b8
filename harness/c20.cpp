// C20: scope ids under any history of parsing, setting, copying and comparing.
#include "lib.hpp"
#include <functional>
#include <sstream>
#include <utility>

static const std::string A1("fe80::1:2"), A2("2001:db8::abcd");

// how a text is handed over
enum { OV_CODE, OV_THROW, OV_W_CODE, OV_W_THROW, OV_16_CODE, OV_16_THROW, OV_32_CODE, OV_32_THROW, OV_8_CODE, OV_8_THROW, OV_COUNT };
template <typename X, typename S> static error_code with_code(X& x, const S& s) { error_code e = error_code::invalid_netmask; x.set_scope_id(s, e); return e; }
template <typename X, typename S> static error_code with_throw(X& x, const S& s) {
#if MC_EXC
    try { x.set_scope_id(s); return error_code::no_error; } catch (const ip::error& e) { return e.code(); }
#else
    x.set_scope_id(s); return error_code::no_error;
#endif
}
template <typename S> static S wide(const std::string& s) { S r; for (size_t i = 0; i < s.size(); ++i) r += typename S::value_type((unsigned char) s[i]); return r; }
template <typename X> static error_code set(X& x, const std::string& s, int ov) {
    switch (ov) {
        case OV_CODE: return with_code(x, s);
        case OV_THROW: return with_throw(x, s);
        case OV_W_CODE: return with_code(x, wide<std::wstring>(s));
        case OV_W_THROW: return with_throw(x, wide<std::wstring>(s));
        case OV_16_CODE: return with_code(x, wide<std::u16string>(s));
        case OV_16_THROW: return with_throw(x, wide<std::u16string>(s));
        case OV_32_CODE: return with_code(x, wide<std::u32string>(s));
        case OV_32_THROW: return with_throw(x, wide<std::u32string>(s));
#if __cpp_char8_t >= 201811L
        case OV_8_CODE: return with_code(x, wide<std::u8string>(s));
        case OV_8_THROW: return with_throw(x, wide<std::u8string>(s));
#endif
        default: return with_code(x, s);
    }
}
static bool settable(const std::string& s) { return s.empty() || ref::valid_scope(ref::widen(s)); }

static bool numeric(const std::string& s, uint32_t& out) {
    if (s.empty()) return false;
    u128 v = 0;
    for (size_t i = 0; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + unsigned(s[i] - '0'); if (v > 0xffffffffu) return false; }
    out = uint32_t(v);
    return true;
}

template <typename X> static bool shows(mc::Ctx& c, const X& x, const ref::addr& m, const std::string& after) {
    const ip::scope s = x.get_scope_id();
    uint32_t v = 0;
    const bool num = numeric(m.scope, v);
    c.step(6);
    if (s.get_string() != m.scope) { c.fail(after + ": scope id " + Q(s.get_string()) + " instead of " + Q(m.scope)); return false; }
    if (s.has_string() != !m.scope.empty() || bool(s) != !m.scope.empty() || (std::string) s != m.scope) { c.fail(after + ": presence of scope id " + Q(m.scope)); return false; }
    if (s.has_uint32() != num) { c.fail(after + ": scope id " + Q(m.scope) + (num ? " not reported as number" : " reported as number")); return false; }
    if (s.get_uint32() != v || (uint32_t) s != v) { c.fail(after + ": scope id " + Q(m.scope) + " has number " + mc::num(s.get_uint32())); return false; }
    if (value_of(x) != m.value) { c.fail(after + ": address changed to " + S(x)); return false; }
    if (x.to_string() != ref::fmt(m, 2)) { c.fail(after + ": text " + Q(x.to_string()) + " instead of " + Q(ref::fmt(m, 2))); return false; }
    return true;
}
template <typename X> static bool related(mc::Ctx& c, const X& x, const ref::addr& m, const X& y, const ref::addr& n, const std::string& after) {
    c.step(4);
    if ((x == y) != (m == n) || (x != y) == (m == n) || (x < y) != (m < n) || (y < x) != (n < m) || (x <= y) == (n < m) || (x >= y) == (m < n)) { c.fail(after + ": relation of " + S(m) + " and " + S(n)); return false; }
    if (m == n && (x.hash() != y.hash() || std::hash<X>()(x) != std::hash<X>()(y))) { c.fail(after + ": equal addresses " + S(m) + " hash differently"); return false; }
    if (m.value == n.value && m.scope != n.scope && x.hash() == y.hash()) { c.fail(after + ": hash does not see the scope ids of " + S(m) + " and " + S(n)); return false; }
    return true;
}

// ---- one setting from every starting scope id
template <typename X> static void once(mc::Ctx& c, const X& start, const ref::addr& m0, const std::string& s, int ov, const char* type) {
    X x = start;
    ref::addr m = m0;
    const error_code e = set(x, s, ov);
    const std::string after = std::string(type) + " " + S(m0) + " set to " + Q(s) + " by overload " + mc::num(ov);
    if (m.version == 4) MC_CHECK(e == error_code::no_error, after + " reports " + S(e));
    else {
        MC_CHECK((e == error_code::no_error) == settable(s), after + " reports " + S(e));
        if (settable(s)) m.scope = s;
        else MC_CHECK(e == (s.size() > ref::SCOPE_MAX ? error_code::scope_id_is_too_long : error_code::invalid_scope_id), after + " reports " + S(e));
    }
    shows(c, x, m, after);
}
static void once_all(mc::Ctx& c, const std::string& s, uint64_t turn) {
    static const std::string held[] = { "", "1", std::string(ref::SCOPE_MAX, 'Q') };
    ref::addr m;
    ref::parse6(ref::widen(A1), m);
    for (int ov = 0; ov < OV_COUNT; ++ov)
        for (int h = 0; h < 3; ++h) {
            if (int((turn + ov) % 3) != h && ov > 1) continue;
            m.scope = held[h];
            const ipv6_address x = lib6(m.value, m.scope);
            once(c, x, m, s, ov, "ipv6_address");
            once(c, ip_address(x), m, s, ov, "ip_address");
        }
    once(c, ip_address(lib4(0x01020304u)), ref::addr(4, 0x01020304u), s, int(turn % OV_COUNT), "ip_address");
}

MC_SPACE(settings, "every text over significant characters to the length bound, through every overload, from no, a short and a full scope id") {
    const std::string a("0a%/ \t\0.~\x1f", 10);
    en::strings(c, a, 0, int(c.bound(3, 5, 2)), [&](const std::string& s) { once_all(c, s, mc::hash(s) % 30); });
}
MC_SPACE(lengths, "every length from 0 to twice the limit, with every character at the ends and around the limit") {
    const std::string odd("a0%/ \0\x7f\t", 8);
    for (size_t n = 0; n <= 2 * ref::SCOPE_MAX + 3; ++n)
        for (size_t p = 0; p <= n; ++p)
            for (size_t k = 0; k < odd.size(); ++k) {
                if (!c.take()) continue;
                std::string s(n, 'b');
                if (p < n) s[p] = odd[k];
                c.fresh();
                if (c.wants_sample()) c.sample(s);
                once_all(c, s, p + k);
            }
}
MC_SPACE(characters, "every 7-bit character and every wide unit in a scope id: set, parsed and refused alike") {
    c.range(128 * 3, 16, [&](uint64_t i) { std::string s("xyz"); s[size_t(i % 3)] = char(i / 3); c.fresh(); once_all(c, s, i); });
    const uint64_t n = c.reduced() ? 0x300 : 0x110100;
    c.range(n, 512, [&](uint64_t i) {
        if (i < 128) return;
        c.fresh();
        std::u32string s32(U"ab"); s32.insert(size_t(i % 3), 1, char32_t(i));
        std::wstring sw(L"ab"); sw.insert(size_t(i % 3), 1, wchar_t(i));
        ref::addr m;
        ref::parse6(ref::widen(A1), m);
        m.scope = ref::SCOPE_MAX ? "7" : "";
        ipv6_address x = lib6(m.value, m.scope);
        error_code e = error_code::no_error;
        x.set_scope_id(s32, e);
        MC_CHECK(e != error_code::no_error, "code point " + mc::hex(i) + " accepted");
        e = error_code::no_error;
        x.set_scope_id(sw, e);
        MC_CHECK(e != error_code::no_error, "wide character " + mc::hex(i) + " accepted");
        if (i < 0x10000) { std::u16string s(u"ab"); s.insert(size_t(i % 3), 1, char16_t(i)); e = error_code::no_error; x.set_scope_id(s, e); MC_CHECK(e != error_code::no_error, "unit " + mc::hex(i) + " accepted"); }
        shows(c, x, m, "after refused code point " + mc::hex(i));
    });
}

// ---- numbers
static void number(mc::Ctx& c, const std::string& s) {
    if (s.size() > ref::SCOPE_MAX) return;
    ref::addr m;
    ref::parse6(ref::widen(A2), m);
    m.scope = s;
    ipv6_address x = lib6(m.value);
    error_code e = error_code::no_error;
    x.set_scope_id(s, e);
    MC_CHECK(e == error_code::no_error, "number " + Q(s) + " refused");
    shows(c, x, m, "number");
    const ipv6_address y = ipv6_address::parse(A2 + "%" + s, e);
    MC_CHECK(e == error_code::no_error && y == x, "parsed number " + Q(s));
    shows(c, ip_address(y), m, "parsed number");
}
MC_SPACE(numbers, "every decimal text to five digits, every text around 2^32 at every digit, and letters inside numbers") {
    en::strings(c, std::string("0123456789"), 1, int(c.bound(4, 5, 2)), [&](const std::string& s) { number(c, s); });
    const std::string lim("4294967295");
    for (size_t n = 0; n <= lim.size(); ++n) for (int d = 0; d < 12; ++d) for (int f = 0; f < 10; ++f) for (size_t len = 8; len <= 16; ++len) for (int z = 0; z < 7; ++z) {
        if (!c.take()) continue;
        std::string s = lim.substr(0, n);
        s += d < 10 ? char('0' + d) : d == 10 ? ':' : '/' + 50;
        while (s.size() < len) s += char('0' + f);
        c.fresh();
        number(c, std::string(size_t(z), '0') + s);
    }
    for (size_t len = 1; len <= 16; ++len) for (size_t p = 0; p < len; ++p) for (int ch = 33; ch < 127; ++ch) {
        if (ch == '%' || ch == '/') continue;
        if (!c.take()) continue;
        std::string s(len, '1'); s[p] = char(ch);
        c.fresh();
        number(c, s);
    }
}

// ---- fixed arrays
template <typename Ch> static void arrays(mc::Ctx& c, const char* type) {
    // every content of an array of four units over a letter, a digit, NUL and separators
    const Ch u[] = { Ch('k'), Ch('5'), Ch(0), Ch('%'), Ch(' '), Ch('/') };
    en::strings(c, std::basic_string<Ch>(u, 6), 4, 4, [&](const std::basic_string<Ch>& s) {
        const Ch a[5] = { s[0], s[1], s[2], s[3], Ch(0) };
        std::string text;
        for (size_t i = 0; i < 4 && s[i] != Ch(0); ++i) text += char(s[i]);
        for (int h = 0; h < 4; ++h) {
            ref::addr m;
            ref::parse6(ref::widen(A1), m);
            m.scope = h % 2 ? "" : "held";
            ipv6_address x = lib6(m.value, m.scope);
            ip_address y(x), v4(lib4(1));
            const bool good = settable(text);
            error_code e = error_code::invalid_netmask, f = error_code::invalid_netmask, g = error_code::invalid_netmask;
            if (h < 2) { x.set_scope_id(a, e); y.set_scope_id(a, f); v4.set_scope_id(a, g); }
            else {
                e = with_throw(x, a); f = with_throw(y, a); g = with_throw(v4, a);
            }
            MC_CHECK((e == error_code::no_error) == good && e == f && g == error_code::no_error, type + std::string(" array ") + Q(text) + " reports " + S(e) + " " + S(f) + " " + S(g));
            if (good) m.scope = text;
            shows(c, x, m, type + std::string(" array ") + Q(text));
            shows(c, y, m, type + std::string(" array ") + Q(text));
            shows(c, v4, ref::addr(4, 1), "IPv4 after an array");
        }
    });
}
#if !defined(IPADDRESS_NO_IPV6_SCOPE)
MC_SPACE(literals, "every content of a character array, embedded NULs included, through the array overloads of every character type") {
    arrays<char>(c, "char"); arrays<wchar_t>(c, "wchar_t"); arrays<char16_t>(c, "char16_t"); arrays<char32_t>(c, "char32_t");
#if __cpp_char8_t >= 201811L
    arrays<char8_t>(c, "char8_t");
#endif
}
#endif

// ---- scope objects among themselves
MC_SPACE(scopes, "all pairs of scope ids: comparison and equality of the scope objects and of addresses carrying them") {
    std::vector<std::string> v;
    const std::string a("01a~");
    v.push_back("");
    for (size_t from = 0, l = 1; l <= size_t(c.bound(3, 4, 2)); ++l) { const size_t to = v.size(); for (size_t i = from; i < to; ++i) for (size_t k = 0; k < a.size(); ++k) v.push_back(v[i] + a[k]); from = to; }
    v.push_back(std::string(ref::SCOPE_MAX, 'a')); v.push_back(std::string(ref::SCOPE_MAX, 'a').replace(ref::SCOPE_MAX - 1, 1, "b"));
    c.range(uint64_t(v.size()) * v.size(), 64, [&](uint64_t i) {
        const std::string &s = v[size_t(i / v.size())], &t = v[size_t(i % v.size())];
        if (s.size() > ref::SCOPE_MAX || t.size() > ref::SCOPE_MAX) return;
        c.fresh();
        ref::addr m;
        ref::parse6(ref::widen(A1), m);
        ref::addr n = m;
        m.scope = s; n.scope = t;
        const ipv6_address x = lib6(m.value, s), y = lib6(n.value, t);
        const ip::scope p = x.get_scope_id(), q = y.get_scope_id();
        MC_CHECK((p == q) == (s == t) && (p != q) == (s != t), "scopes " + Q(s) + " and " + Q(t) + " equality");
        MC_CHECK((p < q) == (s < t) && (p > q) == (s > t) && (p <= q) == (s <= t) && (p >= q) == (s >= t), "scopes " + Q(s) + " and " + Q(t) + " order");
        related(c, x, m, y, n, "pair");
        related(c, ip_address(x), m, ip_address(y), n, "pair");
    });
}

// ---- histories over three objects
struct World {
    ipv6_address x, y; ip_address z;
    ref::addr mx, my, mz;
};
static const char* const op_names[] = { "x=A1", "x=A1%1", "x=A2%eth0", "parse bad scope into x", "x set 'en1'", "x set '4294967296'", "x set too long", "x set 'a%b'", "x set ''", "x set NUL", "x set wide 'w'", "x set non-ASCII", "x set 'thr' by exception overload", "x set bad by exception overload",
    "y=x", "x=y", "swap x,y", "z=x", "z=y", "z=IPv4", "x=z if v6", "z set 'zz'", "z set bad", "y set literal", "y=move(x)", "x=x", "y from bytes of x", "y through network", "z swap", "x by text of x" };
enum { OPS = sizeof op_names / sizeof *op_names };

static const std::string BIG(ref::SCOPE_MAX < 10 ? "42949" : "4294967296");
static bool apply(mc::Ctx& c, World& w, int op, const std::string& log) {
    error_code e = error_code::no_error;
    bool want = true;
    ref::addr p;
    const std::string toolong(ref::SCOPE_MAX + 1, '1');
    struct H { static void set(ref::addr& m, const std::string& s) { m.scope = s; } };
    switch (op) {
        case 0: w.x = ipv6_address::parse(A1); ref::parse6(ref::widen(A1), w.mx); break;
        case 1: w.x = ipv6_address::parse(A1 + "%1"); ref::parse6(ref::widen(A1 + "%1"), w.mx); break;
        case 2: w.x = ipv6_address::parse(A2 + "%eth0"); ref::parse6(ref::widen(A2 + "%eth0"), w.mx); break;
        case 3: { const ipv6_address t = ipv6_address::parse(A2 + "%e%", e); (void) t; want = false; break; }
        case 4: e = set(w.x, "en1", OV_CODE); H::set(w.mx, "en1"); break;
        case 5: e = set(w.x, BIG, OV_16_CODE); H::set(w.mx, BIG); break;
        case 6: e = set(w.x, toolong, OV_CODE); want = false; break;
        case 7: e = set(w.x, "a%b", OV_32_CODE); want = false; break;
        case 8: e = set(w.x, "", OV_CODE); H::set(w.mx, ""); break;
        case 9: e = set(w.x, std::string("a\0b", 3), OV_CODE); want = false; break;
        case 10: e = set(w.x, "w", OV_W_CODE); H::set(w.mx, "w"); break;
        case 11: e = with_code(w.x, std::u16string(u"\u00e9t")); want = false; break;
        case 12: e = set(w.x, "thr", OV_THROW); H::set(w.mx, "thr"); break;
        case 13: e = set(w.x, "b/d", OV_32_THROW); want = false; break;
        case 14: w.y = w.x; w.my = w.mx; break;
        case 15: w.x = w.y; w.mx = w.my; break;
        case 16: w.x.swap(w.y); std::swap(w.mx, w.my); break;
        case 17: w.z = w.x; w.mz = w.mx; break;
        case 18: w.z = ip_address(w.y); w.mz = w.my; break;
        case 19: w.z = lib4(0x0a000001u); w.mz = ref::addr(4, 0x0a000001u); break;
        case 20: if (w.z.is_v6()) { w.x = w.z.v6().value(); w.mx = w.mz; } break;
        case 21: e = set(w.z, "zz", OV_CODE); if (w.mz.version == 6) w.mz.scope = "zz"; break;
        case 22: e = set(w.z, "z/", OV_W_CODE); want = w.mz.version == 4; break;
        case 23: w.y.set_scope_id("lit"); w.my.scope = "lit"; break;
        case 24: w.y = std::move(w.x); w.my = w.mx; w.x = w.y; break;
        case 25: { const ipv6_address& a = w.x; w.x = a; break; }
        case 26: w.y = ipv6_address(w.x.bytes()); w.my = ref::addr(6, w.mx.value); break;
        case 27: w.y = ip::ipv6_network::from_address(w.x).network_address(); w.my = w.mx; break;
        case 28: { ip_address t(w.x); t.swap(w.z); if (t.is_v6()) w.x = t.v6().value(); else w.x = ipv6_address(); std::swap(w.mx, w.mz); if (w.mx.version == 4) w.mx = ref::addr(6, 0); break; }
        case 29: w.x = ipv6_address::parse(w.x.to_string()); break;
    }
    c.step();
    if ((e == error_code::no_error) != want) { c.fail(log + ": reported " + S(e)); return false; }
    return true;
}

#if !defined(IPADDRESS_NO_IPV6_SCOPE)
MC_SPACE(histories, "every sequence of parsing, setting (valid and invalid, all overload kinds), copying, swapping and version changes on three objects to the depth bound") {
    const int depth = int(c.bound(4, 5, 3));
    uint64_t n = 1;
    for (int i = 0; i < depth; ++i) n *= OPS;
    c.range(n, 1024, [&](uint64_t idx) {
        World w;
        w.mx = w.my = ref::addr(6, 0);
        w.mz = ref::addr(4, 0);
        uint64_t code = idx;
        std::string log;
        for (int d = 0; d < depth; ++d, code /= OPS) {
            const int op = int(code % OPS);
            log = std::string("history ") + mc::num(idx) + " step " + mc::num(d) + " (" + op_names[op] + ")";
            if (!apply(c, w, op, log)) return;
        }
        uint64_t h = mc::comb(mc::hash(w.mx.scope, ref::lo(w.mx.value)), mc::hash(w.my.scope, ref::lo(w.my.value)));
        if (!c.state(mc::comb(h, mc::hash(w.mz.scope, ref::lo(w.mz.value) + w.mz.version))) && !c.thorough() && (idx & 1)) { // the objects' own state is compared in any case
            if (!(shows(c, w.x, w.mx, log) && shows(c, w.y, w.my, log) && shows(c, w.z, w.mz, log))) return;
            return;
        }
        if (!(shows(c, w.x, w.mx, log + " x") && shows(c, w.y, w.my, log + " y") && shows(c, w.z, w.mz, log + " z"))) return;
        related(c, w.x, w.mx, w.y, w.my, log);
        related(c, ip_address(w.x), w.mx, w.z, w.mz, log);
    });
}
#endif

int main(int argc, char** argv) { return mc::main(argc, argv); }
