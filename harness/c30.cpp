// C30: a failed allocation is reported as std::bad_alloc (by streams: as a stream error) and changes nothing else.
// Fault injection: every operation is repeated with its k-th allocation failing, for every k, once and from then on.
#include "lib.hpp"
#include <algorithm>
#include <iomanip>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

// ---- the allocator under control
static volatile bool armed;
static volatile long counted, fail_at, fail_too, live;
static volatile bool from_then_on;
static bool refused() {
    if (!armed) return false;
    ++counted;
    return counted == fail_at || counted == fail_too || (from_then_on && counted > fail_at);
}
static void* grab(size_t n) { if (refused()) return 0; void* p = std::malloc(n ? n : 1); if (p) ++live; return p; }
static void drop(void* p) { if (p) { --live; std::free(p); } }
void* operator new(size_t n) { void* p = grab(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = grab(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return grab(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return grab(n); }
void operator delete(void* p) noexcept { drop(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { drop(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { drop(p); }
#if __cpp_sized_deallocation
void operator delete(void* p, size_t) noexcept { drop(p); }
void operator delete[](void* p, size_t) noexcept { drop(p); }
#endif

// ---- what an operation did, recorded without allocating
enum { ROOM = 3000 };
struct Out {
    char b[ROOM];
    size_t n;
    bool stream_failed;   // a stream it used reported an error
    bool bad_alloc;
    const char* broken;   // an object that had to stay as it was did not
    Out() : n(0), stream_failed(false), bad_alloc(false), broken(0) {}
    void raw(const void* p, size_t k) { for (size_t i = 0; i < k && n < ROOM; ++i) b[n++] = static_cast<const char*>(p)[i]; }
    Out& operator<<(const char* s) { raw(s, std::strlen(s)); return *this; }
    Out& operator<<(const std::string& s) { raw(s.data(), s.size()); raw("|", 1); return *this; }
    Out& operator<<(const std::wstring& s) { raw(s.data(), s.size() * sizeof(wchar_t)); raw("|", 1); return *this; }
    Out& operator<<(const std::u16string& s) { raw(s.data(), s.size() * 2); raw("|", 1); return *this; }
    Out& operator<<(const std::u32string& s) { raw(s.data(), s.size() * 4); raw("|", 1); return *this; }
#if __cpp_char8_t >= 201811L
    Out& operator<<(const std::u8string& s) { raw(s.data(), s.size()); raw("|", 1); return *this; }
#endif
    Out& operator<<(uint64_t v) { char t[24]; raw(t, size_t(std::snprintf(t, sizeof t, "%llu ", (unsigned long long) v))); return *this; }
    Out& operator<<(bool v) { raw(v ? "T" : "F", 1); return *this; }
    Out& operator<<(int v) { return *this << uint64_t(unsigned(v)); }
    Out& operator<<(unsigned v) { return *this << uint64_t(v); }
    Out& operator<<(ip::ip_version v) { return *this << uint64_t(v); }
    Out& operator<<(error_code e) { return *this << uint64_t(e); }
    Out& operator<<(const uint128_t& v) { return *this << v.lower() << v.upper(); }
    Out& operator<<(const ipv4_address& a) { const auto x = a.bytes(); raw(x.data(), x.size()); return *this; }
    Out& operator<<(const ipv6_address& a) {
        const auto x = a.bytes(); raw(x.data(), x.size());
        const auto s = a.get_scope_id();
        *this << bool(s) << s.has_string() << s.has_uint32();
        const bool was = armed;
        armed = false; // the scope id itself can only be had as a string
        { const std::string t = s.get_string(); *this << t; }
        armed = was;
        return *this;
    }
    Out& operator<<(const ip_address& a) { if (a.is_v4()) return *this << "4" << a.v4().value(); return *this << "6" << a.v6().value(); }
    template <typename B> Out& operator<<(const ip::ip_network_base<B>& x) { return *this << x.network_address() << x.netmask() << uint64_t(x.prefixlen()); }
    Out& operator<<(const ip_network& x) { return *this << x.network_address() << x.netmask() << uint64_t(x.prefixlen()); }
    bool same(const Out& o) const { return n == o.n && std::memcmp(b, o.b, n) == 0; }
};
static std::string show(const Out& o) { return mc::esc(std::string(o.b, o.n < 120 ? o.n : 120)); }

struct Fn { void (*call)(const void*, Out&); const void* self; void operator()(Out& o) const { call(self, o); } };
static __attribute__((noinline)) void perform(const Fn& f, Out& o) {
    try { f(o); }
    catch (const std::bad_alloc&) { o.bad_alloc = true; }
    catch (const ip::parse_error& e) { o << "parse_error" << e.code() << e.what(); }
    catch (const ip::logic_error& e) { o << "logic_error" << e.code() << e.what(); }
    catch (const ip::error& e) { o << "error" << e.code() << e.what(); }
    catch (const std::out_of_range& e) { o << "out_of_range" << e.what(); }
    catch (const std::exception& e) { o << "exception" << e.what(); }
    catch (...) { o << "something else"; }
}
static long attempt(const Fn& f, Out& o, long k, bool sticky, long too = -1) {
    counted = 0; fail_at = k; fail_too = too; from_then_on = sticky;
    armed = true;
    perform(f, o);
    armed = false;
    return counted;
}
static void inject_fn(mc::Ctx& c, const std::string& name, const Fn& f) {
    static Out ref, got;
    for (int warm = 0; warm < 2; ++warm) { ref = Out(); perform(f, ref); }
    MC_CHECK(!ref.bad_alloc && !ref.stream_failed && !ref.broken, name + " fails although every allocation succeeds: " + show(ref));
    const long before = live;
    got = Out();
    const long n = attempt(f, got, -1, false);
    MC_CHECK(got.same(ref), name + " is not deterministic: " + show(ref) + " then " + show(got));
    MC_CHECK(live == before, name + " leaks " + mc::inum(live - before) + " blocks");
    // mode 0: one failure, 1: from then on, 2: a second failure later
    for (int mode = 0; mode < (c.thorough() ? 3 : 2); ++mode) for (long k = 1; k <= n && k <= 400; ++k)
        for (long too = mode == 2 ? k + 1 : -1; too <= (mode == 2 && n <= 40 ? n : -1); ++too) {
            const long l = live;
            got = Out();
            attempt(f, got, k, mode == 1, too);
            const long kept = live - l;
            const std::string at = name + " when allocation " + mc::inum(k) + (too > 0 ? " and " + mc::inum(too) : std::string()) + " of " + mc::inum(n) + (mode == 1 ? " and all later ones fail: " : " fails: ");
            MC_CHECK(!got.broken, at + got.broken);
            MC_CHECK(got.bad_alloc || got.stream_failed || got.same(ref), at + "result " + show(got) + " instead of " + show(ref) + " or std::bad_alloc");
            MC_CHECK(kept == 0, at + mc::inum(kept) + " blocks are never released");
            got = Out();
            perform(f, got);
            MC_CHECK(got.same(ref), at + "afterwards the result is " + show(got) + " instead of " + show(ref));
            c.fresh(); // distinct by construction: operation, input, failing allocations
        }
    if (c.wants_sample()) c.sample(name + ": " + mc::inum(n) + " allocations, " + show(ref));
}

template <typename F> static void call(const void* self, Out& o) { (*static_cast<const F*>(self))(o); }
template <typename F> static void inject(mc::Ctx& c, const std::string& name, const F& f) { const Fn g = { call<F>, &f }; inject_fn(c, name, g); }

// ---- inputs
static const char* const good4[] = { "0.0.0.0", "1.2.3.4", "255.255.255.255" };
static const char* const good6[] = { "::", "1::2", "2001:db8:1111:2222:3333:4444:5555:6666", "::ffff:1.2.3.4", "fe80::1%5", "fe80::1%abcdefghijklmnop", "1:2:3:4:5:6:7:8%eth0" };
static const char* const texts[] = { "", "1.2.3.4", "255.255.255.255", "1.2.3", "1.2.3.256", "01.2.3.4", "1.2.3.x", "1.2.3.1000", "1..2.3", "::", "1::2", "fe80::1%5", "fe80::1%abcdefghijklmnop", "fe80::1%abcdefghijklmnopq", "fe80::1%",
    "fe80::1%a/b", "2001:db8:1111:2222:3333:4444:5555:6666", "2001:0db8:1111:2222:3333:4444:255.255.255.255", "1::2::3", ":1::2", "1::2:", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "1:2:3:4:5:6:7:8:9:a", "12345::", "g::", "1:2:3:4:5:6:7::8",
    "1.2.3.4/8", "10.0.0.0/8", "10.0.0.0/255.0.0.0", "10.0.0.0/0.255.255.255", "10.0.0.0/255.0.255.0", "1.2.3.4/33", "1.2.3.4/", "1.2.3.4/8/8", "1::/16", "1::2/16", "1::2/129", "1::/x", "/", "fe80::%abcdefghijklmnop/64", "fe80::1%abcdefghijklmnop/64",
    "000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001.2.3.4" };
enum { NTEXTS = sizeof texts / sizeof *texts };
template <typename Ch> static std::basic_string<Ch> as(const std::string& s) { return std::basic_string<Ch>(s.begin(), s.end()); }

// ---- parsing
template <typename Ch, typename X> static void parse_one(mc::Ctx& c, const std::string& s, const char* type) {
    if (!c.take()) return;
    const std::basic_string<Ch> w = as<Ch>(s);
    inject(c, std::string(type) + "::parse(" + Q(s) + ")", [&](Out& o) { o << X::parse(w); });
    inject(c, std::string(type) + "::parse(" + Q(s) + ", code)", [&](Out& o) { error_code e = error_code::no_error; const X x = X::parse(w, e); o << e << x; });
}
template <typename Ch, typename X> static void parse_net(mc::Ctx& c, const std::string& s, const char* type) {
    if (!c.take()) return;
    const std::basic_string<Ch> w = as<Ch>(s);
    for (int strict = 0; strict < 2; ++strict) {
        inject(c, std::string(type) + "::parse(" + Q(s) + (strict ? ")" : ", false)"), [&](Out& o) { o << X::parse(w, strict != 0); });
        inject(c, std::string(type) + "::parse(" + Q(s) + (strict ? ", code)" : ", code, false)"), [&](Out& o) { error_code e = error_code::no_error; const X x = X::parse(w, e, strict != 0); o << e << x; });
    }
}
template <typename Ch> static void parse_all(mc::Ctx& c, const std::string& s) {
    parse_one<Ch, ipv4_address>(c, s, "ipv4_address"); parse_one<Ch, ipv6_address>(c, s, "ipv6_address"); parse_one<Ch, ip_address>(c, s, "ip_address");
    parse_net<Ch, ipv4_network>(c, s, "ipv4_network"); parse_net<Ch, ipv6_network>(c, s, "ipv6_network"); parse_net<Ch, ip_network>(c, s, "ip_network");
}
static void parse_any(mc::Ctx& c, const std::string& s) {
    parse_all<char>(c, s); parse_all<wchar_t>(c, s); parse_all<char16_t>(c, s); parse_all<char32_t>(c, s);
#if __cpp_char8_t >= 201811L
    parse_all<char8_t>(c, s);
#endif
}
MC_SPACE(parsing, "every parse function on 43 texts in every encoding, both channels, strict or not: every failing allocation") {
    for (size_t i = 0; i < NTEXTS; ++i) parse_any(c, texts[i]);
    static const uint32_t odd[] = { 0xFF, 0x1234, 0xFFFF };
    for (size_t i = 0; i < 3; ++i) if (c.take()) {
        const std::u32string u(3, char32_t(odd[i])); const std::u16string q(3, char16_t(odd[i])); const std::wstring w(60, wchar_t(odd[i])); const std::u16string broken(40, char16_t(0xDC00));
        inject(c, "ipv6_address::parse of UTF-32", [&](Out& o) { o << ipv6_address::parse(u); });
        inject(c, "ipv4_address::parse of UTF-16", [&](Out& o) { o << ipv4_address::parse(q); });
        inject(c, "ip_network::parse of wide", [&](Out& o) { o << ip_network::parse(w); });
        inject(c, "ip_address::parse of lone surrogates", [&](Out& o) { o << ip_address::parse(broken); });
    }
}
MC_SPACE(mutants, "every text with one character of 20 valid texts deleted or replaced by one of 11: every parse function, both channels, every failing allocation") {
    static const char* const seeds[] = { "1.2.3.4", "255.254.253.252", "1::2", "::", "fe80::1%5", "fe80::1%abcdefghijklmno", "2001:db8:1111:2222:3333:4444:5555:6666", "::ffff:1.2.3.4", "10.0.0.0/8", "10.0.0.0/255.0.0.0", "1::/16", "fe80::%abcdefghijklmno/64" };
    const std::string sig("01f.:%/x \0" "9", 11);
    const size_t n = size_t(c.bound(12, 12, 4));
    for (size_t k = 0; k < n; ++k) en::edits(std::string(seeds[k]), sig, [&](const std::string& s) { parse_all<char>(c, s); if (c.thorough()) parse_all<wchar_t>(c, s); });
}

// ---- texts
template <typename A> static void texts_of(mc::Ctx& c, const A& a, const std::string& name) {
    static const format f[] = { format::full, format::compact, format::compressed };
    for (int k = 0; k < 3; ++k) {
        if (!c.take()) continue;
        const format m = f[k];
        inject(c, name + ".to_string", [&](Out& o) { o << a.to_string(m); });
        inject(c, name + ".to_wstring", [&](Out& o) { o << a.to_wstring(m); });
        inject(c, name + ".to_u16string", [&](Out& o) { o << a.to_u16string(m); });
        inject(c, name + ".to_u32string", [&](Out& o) { o << a.to_u32string(m); });
#if __cpp_char8_t >= 201811L
        inject(c, name + ".to_u8string", [&](Out& o) { o << a.to_u8string(m); });
#endif
        inject(c, name + " as std::string", [&](Out& o) { o << std::string(a); });
        inject(c, name + " as std::wstring", [&](Out& o) { o << std::wstring(a); });
        inject(c, name + " as std::u16string", [&](Out& o) { o << std::u16string(a); });
        inject(c, name + " as std::u32string", [&](Out& o) { o << std::u32string(a); });
        inject(c, "std::to_string(" + name + ")", [&](Out& o) { o << std::to_string(a); });
        inject(c, "std::to_wstring(" + name + ")", [&](Out& o) { o << std::to_wstring(a); });
        inject(c, "hash, comparison and copies of " + name, [&](Out& o) { A b = a, d(a); std::swap(b, d); b = d; o << uint64_t(a.hash()) << uint64_t(std::hash<A>()(b)) << (a == d) << (a < b) << (a >= d) << b; });
    }
}
template <typename A> static void raw_value(Out& o, const A& a) { o << A::from_bytes(a.bytes()) << A::from_uint(a.to_uint()); }
static void raw_value(Out& o, const ip_address& a) { o << a << uint64_t(a.is_v4()); }
template <typename A> static void address_texts(mc::Ctx& c, const A& a, const std::string& name) {
    texts_of(c, a, name);
    if (!c.take()) return;
    inject(c, name + ".reverse_pointer", [&](Out& o) { o << a.reverse_pointer(); });
    inject(c, name + " predicates and values", [&](Out& o) {
        o << a.is_multicast() << a.is_private() << a.is_global() << a.is_reserved() << a.is_loopback() << a.is_link_local() << a.is_unspecified() << uint64_t(a.size()) << a.version() ;
        raw_value(o, a); });
}
static void scope_texts(mc::Ctx& c, const ipv6_address& a, const std::string& name) {
    if (!c.take()) return;
    inject(c, name + ".get_scope_id().get_string", [&](Out& o) { o << a.get_scope_id().get_string(); });
    inject(c, name + ".get_scope_id() as strings", [&](Out& o) { const auto s = a.get_scope_id(); o << std::string(s); });
    inject(c, name + " embedded addresses", [&](Out& o) {
        const auto m = a.ipv4_mapped(); o << bool(m); if (m) o << m.value();
        const auto x = a.sixtofour(); o << bool(x); const auto t = a.teredo(); o << bool(t) << a.is_site_local(); });
}
MC_SPACE(texts_space, "texts in every string type and format, reverse names and scope ids of 3 IPv4 and 7 IPv6 addresses and their networks, typed and version-agnostic") {
    for (size_t i = 0; i < 3; ++i) {
        const ipv4_address a = ipv4_address::parse(std::string(good4[i]));
        const ipv4_network n = ipv4_network::from_address(a, 24, false);
        address_texts(c, a, good4[i]); address_texts(c, ip_address(a), std::string("any ") + good4[i]);
        texts_of(c, n, std::string(good4[i]) + "/24"); texts_of(c, ip_network(n), std::string("any ") + good4[i] + "/24");
    }
    for (size_t i = 0; i < 7; ++i) {
        const ipv6_address a = ipv6_address::parse(std::string(good6[i]));
        const ipv6_network n = ipv6_network::from_address(a, 128, false);
        address_texts(c, a, good6[i]); address_texts(c, ip_address(a), std::string("any ") + good6[i]);
        texts_of(c, n, std::string(good6[i]) + "/128"); texts_of(c, ip_network(n), std::string("any ") + good6[i] + "/128");
        scope_texts(c, a, good6[i]);
    }
}

// ---- scope ids
template <typename Ch, typename A> static void scope_set(mc::Ctx& c, const A& base, const std::string& s, const std::string& name) {
    if (!c.take()) return;
    const std::basic_string<Ch> w = as<Ch>(s);
    inject(c, name + ".set_scope_id(" + Q(s) + ")", [&](Out& o) {
        A a = base;
        try { a.set_scope_id(w); } catch (...) { if (!(a == base)) o.broken = "the address was changed"; throw; }
        o << a; });
    inject(c, name + ".set_scope_id(" + Q(s) + ", code)", [&](Out& o) { A a = base; error_code e = error_code::no_error; a.set_scope_id(w, e); o << e << a; });
}
MC_SPACE(scopes, "setting 11 scope ids, valid or not, in every encoding on 7 addresses, typed and version-agnostic") {
    static const char* const ids[] = { "", "1", "4294967295", "4294967296", "eth0", "abcdefghijklmnop", "abcdefghijklmnopq", "a%b", "a/b", "a b", "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz" };
    for (size_t i = 0; i < 7; ++i) for (size_t k = 0; k < 11; ++k) {
        const ipv6_address a = ipv6_address::parse(std::string(good6[i]));
        scope_set<char>(c, a, ids[k], good6[i]); scope_set<wchar_t>(c, a, ids[k], good6[i]); scope_set<char16_t>(c, a, ids[k], good6[i]); scope_set<char32_t>(c, a, ids[k], good6[i]);
        scope_set<char>(c, ip_address(a), ids[k], std::string("any ") + good6[i]); scope_set<wchar_t>(c, ip_address(a), ids[k], std::string("any ") + good6[i]);
    }
}

// ---- streams
template <typename Ch, typename X> static void insertion(mc::Ctx& c, const X& x, const std::string& name) {
    for (int k = 0; k < 8; ++k) {
        if (!c.take()) continue;
        inject(c, "inserting " + name + ", way " + mc::inum(k), [&](Out& o) {
            std::basic_ostringstream<Ch> s;
            if (k == 1) s << ip::full;
            if (k == 2) s << ip::compact << std::uppercase;
            if (k == 3) s << std::setw(60) << std::left << std::setfill(Ch('*'));
            if (k == 4) s << std::hex << std::showbase << std::uppercase;
            if (k == 5) s << std::oct;
            if (k == 6) s << ip::compressed << std::setw(600);
            s << x << Ch(' ') << x;
            if (k == 7) s << x << ip::full << x << ip::full << ip::compact << x << x;
            if (!s) o.stream_failed = true;
            o << s.str(); });
    }
    if (!c.take()) return;
    // with exceptions enabled the failure is thrown; a failed insertion does not affect other objects
    inject(c, "inserting " + name + " with exceptions", [&](Out& o) {
        std::basic_ostringstream<Ch> s;
        s.exceptions(std::ios_base::badbit);
        s << ip::full << x << x;
        o << s.str(); });
}
template <typename Ch, typename X> static void extraction(mc::Ctx& c, const std::string& in, const X& first, const std::string& name) {
    if (!c.take()) return;
    const std::basic_string<Ch> w = as<Ch>(in);
    inject(c, "extracting " + name + " from " + Q(in), [&](Out& o) {
        std::basic_istringstream<Ch> s(w);
        X x = first, y = first;
        s >> x; const bool f = s.fail(), b = s.bad();
        if (!b) { o << f; if (!f) o << x; }
        s.clear(s.rdstate() & ~std::ios_base::failbit);
        s >> y;
        if (s.bad() || b) o.stream_failed = true;
        else { o << s.fail() << s.eof(); if (!s.fail()) o << y; } });
    inject(c, "extracting " + name + " with exceptions from " + Q(in), [&](Out& o) {
        std::basic_istringstream<Ch> s(w);
        s.exceptions(std::ios_base::badbit);
        X x = first;
        s >> x;
        o << s.fail(); if (!s.fail()) o << x; });
}
template <typename Ch, typename N> static void extract_net(mc::Ctx& c, const std::string& in, const std::string& name) {
    if (!c.take()) return;
    const std::basic_string<Ch> w = as<Ch>(in);
    inject(c, "extracting strictly and not " + name + " from " + Q(in), [&](Out& o) {
        std::basic_istringstream<Ch> s(w);
        N x, y;
        s >> ip::non_strict >> x; const bool f = s.fail(), b = s.bad();
        if (!b) { o << f; if (!f) o << x; }
        s.clear(s.rdstate() & ~std::ios_base::failbit);
        s >> y;
        if (s.bad() || b) o.stream_failed = true;
        else { o << s.fail(); if (!s.fail()) o << y; } });
}
template <typename Ch> static void streams(mc::Ctx& c) {
    for (size_t i = 0; i < 3; ++i) { const ipv4_address a = ipv4_address::parse(std::string(good4[i])); insertion<Ch>(c, a, good4[i]); insertion<Ch>(c, ipv4_network::from_address(a), std::string(good4[i]) + "/32"); insertion<Ch>(c, ip_address(a), std::string("any ") + good4[i]); }
    for (size_t i = 0; i < 7; ++i) { const ipv6_address a = ipv6_address::parse(std::string(good6[i])); insertion<Ch>(c, a, good6[i]); insertion<Ch>(c, ipv6_network::from_address(a), std::string(good6[i]) + "/128"); insertion<Ch>(c, ip_network(ipv6_network::from_address(a)), std::string("any ") + good6[i] + "/128"); insertion<Ch>(c, a.to_uint(), "the number " + std::string(good6[i])); }
    static const char* const tails[] = { "", " 1.2.3.4", " 1::2/16 ", " x" };
    for (size_t i = 0; i < NTEXTS; ++i) for (size_t t = 0; t < 4; ++t) {
        const std::string in = std::string(texts[i]) + tails[t];
        extraction<Ch>(c, in, ipv4_address::from_uint(7), "ipv4_address"); extraction<Ch>(c, in, ipv6_address::parse("7::%seven"), "ipv6_address"); extraction<Ch>(c, in, ip_address(ipv4_address::from_uint(7)), "ip_address");
        extraction<Ch>(c, in, uint128_t(7), "uint128_t");
        extract_net<Ch, ipv4_network>(c, in, "ipv4_network"); extract_net<Ch, ipv6_network>(c, in, "ipv6_network"); extract_net<Ch, ip_network>(c, in, "ip_network");
    }
}
MC_SPACE(narrow_streams, "inserting addresses, networks and numbers in 9 ways, extracting every type from 43 texts with 4 continuations, narrow streams") { streams<char>(c); }
MC_SPACE(wide_streams, "the same with wide streams") { streams<wchar_t>(c); }

// ---- numbers
MC_SPACE(numbers, "128-bit integers at all powers of two and their neighbours: texts in three bases and every string type, reading them back, arithmetic") {
    for (unsigned k = 0; k < 128; ++k) for (int d = -1; d < 2; ++d) {
        if (!c.take()) continue;
        const uint128_t v = (uint128_t(1) << k) + uint128_t(uint64_t(d + 1)) - 1;
        const std::string name = "uint128_t 2^" + mc::num(k) + (d < 0 ? "-1" : d ? "+1" : "");
        static const uint128_t::format f[] = { uint128_t::format::decimal, uint128_t::format::octal, uint128_t::format::hexadecimal };
        for (int b = 0; b < 3; ++b) {
            const uint128_t::format m = f[b];
            const std::string t = v.to_string(m);
            const std::wstring w = v.to_wstring(m);
            const std::u16string u(t.begin(), t.end());
            inject(c, name + ".to_string", [&](Out& o) { o << v.to_string(m); });
            inject(c, name + ".to_wstring", [&](Out& o) { o << v.to_wstring(m); });
            inject(c, name + ".to_u16string", [&](Out& o) { o << v.to_u16string(m); });
            inject(c, name + ".to_u32string", [&](Out& o) { o << v.to_u32string(m); });
            inject(c, name + " from_string", [&](Out& o) { const auto x = uint128_t::from_string(t, m), y = uint128_t::from_string(w, m), z = uint128_t::from_string(u, m); o << bool(x) << x.value() << y.value() << z.value(); });
        }
        inject(c, name + " as strings", [&](Out& o) { o << std::to_string(v) << std::to_wstring(v); });
        inject(c, name + " arithmetic", [&](Out& o) { uint128_t x = v; x *= v; o << x << v + 1 << v - 1 << v * v << v / 10 << v % 10 << (v << 3u) << (v >> 3u) << ~v << (v < x) << bool(v) << uint64_t(std::hash<uint128_t>()(v)) << uint128_t(double(v)); });
    }
}

// ---- networks
template <typename N> static void network_errors(mc::Ctx& c, const N& n, const N& m, const std::string& name) {
    if (!c.take()) return;
    inject(c, name + ".supernet", [&](Out& o) { o << n.supernet() << n.supernet(2); o << n.supernet(0, n.prefixlen() + 1); });
    inject(c, name + ".supernet twice specified", [&](Out& o) { o << n.supernet(2, size_t(3)); });
    inject(c, name + ".supernet too much", [&](Out& o) { o << n.supernet(200); });
    inject(c, name + ".subnets", [&](Out& o) { int k = 0; for (const auto& x : n.subnets(3)) { o << x; if (++k == 9) break; } o << n.subnets(1).back(); });
    inject(c, name + ".subnets of a shorter prefix", [&](Out& o) { o << n.subnets(0, n.prefixlen() - 1).front(); });
    inject(c, name + ".subnets too small", [&](Out& o) { o << n.subnets(200).front(); });
    inject(c, name + ".address_exclude of another network", [&](Out& o) { for (const auto& x : n.address_exclude(m)) o << x; });
    inject(c, name + ".address_exclude", [&](Out& o) { const N s = n.subnets(3)[5]; for (const auto& x : n.address_exclude(s)) o << x; });
    inject(c, name + ".hosts", [&](Out& o) { int k = 0; for (const auto& x : n.hosts()) { o << x; if (++k == 5) break; } auto i = n.hosts().begin(); ++i; i++; i += 3u; --i; o << *i; });
    inject(c, name + " relations", [&](Out& o) { o << n.contains(n.broadcast_address()) << n.overlaps(m) << n.subnet_of(m) << n.supernet_of(m) << n.is_private() << (n < m) << uint64_t(n.hash()) << n.hostmask(); });
}

template <typename A, typename N> static void sequences(mc::Ctx& c, const A& a, const A& b, const N& n, const std::string& name) {
    if (!c.take()) return;
    // containers keep what they hold when they cannot grow
    inject(c, "vector of " + name, [&](Out& o) {
        std::vector<A> v(3, a); std::vector<A> w(v);
        try { for (int i = 0; i < 5; ++i) { v.push_back(b); w = v; } }
        catch (...) { if (!std::equal(w.begin(), w.end(), v.begin()) || v.size() > w.size() + 1) o.broken = "the vector was changed"; throw; }
        o << uint64_t(v.size()) << v.front() << v.back(); });
    inject(c, "sets of " + name, [&](Out& o) {
        std::set<A> s; std::unordered_set<A> h; std::map<N, int> m; std::unordered_map<N, int> u;
        s.insert(a); s.insert(b); h.insert(a); h.insert(b); m[n] = 1; u[n] = 2;
        o << uint64_t(s.size()) << uint64_t(h.count(b)) << *s.begin() << m[n] << u[n]; });
    inject(c, "optional of " + name, [&](Out& o) { ip::optional<A> x, y(a), z(y); x = z; z = ip::optional<A>(); o << bool(x) << x.value() << bool(z) << y.value() << y.has_value(); });
    inject(c, "collecting subnets and hosts of " + name, [&](Out& o) {
        const auto q = n.subnets(2); const auto h = n.subnets(3)[1].hosts();
        std::vector<N> v(q.begin(), q.end()); std::vector<A> w; for (const auto& x : h) { w.push_back(x); if (w.size() == 20) break; }
        o << uint64_t(v.size()) << v.back() << w.back() << q[1] << q.back(); });
}
MC_SPACE(networks, "supernets, subnets, exclusions, hosts and relations of networks of both versions, valid and failing; vectors, sets, maps and optionals of addresses and networks; errors and bounds") {
    const ipv4_network n = ipv4_network::parse(std::string("10.0.0.0/8")), m = ipv4_network::parse(std::string("192.168.0.0/16"));
    const ipv6_network x = ipv6_network::parse(std::string("2001:db8::/32")), y = ipv6_network::parse(std::string("fe80::%abcdefghijklmnop/64"));
    network_errors(c, n, m, "10.0.0.0/8"); network_errors(c, x, y, "2001:db8::/32"); network_errors(c, y, x, "fe80::%abcdefghijklmnop/64");
    network_errors(c, ip_network(n), ip_network(m), "any 10.0.0.0/8"); network_errors(c, ip_network(x), ip_network(y), "any 2001:db8::/32"); network_errors(c, ip_network(n), ip_network(y), "any 10.0.0.0/8 and IPv6");
    const ipv4_address a4 = ipv4_address::from_uint(5), b4 = ipv4_address::from_uint(0x7f000001);
    const ipv6_address a6 = ipv6_address::parse(std::string("1::2%abcdefghijklmnop")), b6 = ipv6_address::parse(std::string("::"));
    sequences(c, a4, b4, n, "10.0.0.0/8"); sequences(c, a6, b6, x, "2001:db8::/32");
    sequences(c, ip_address(a4), ip_address(b6), ip_network(n), "any 10.0.0.0/8"); sequences(c, ip_address(a6), ip_address(b4), ip_network(x), "any 2001:db8::/32");
    if (c.take()) {
        inject(c, "from_address with host bits", [&](Out& o) { o << ipv4_network::from_address(b4, 8); });
        inject(c, "ipv6 from_address with host bits", [&](Out& o) { o << ipv6_network::from_address(a6, 8); });
        inject(c, "any from_address with host bits", [&](Out& o) { o << ip_network::from_address(ip_address(a6), 8); });
        const auto q = a6.bytes(); const auto f = ip::make_fixed_string("abc");
        inject(c, "byte_array::at", [&](Out& o) { o << unsigned(q.at(3)); o << unsigned(q.at(16)); });
        inject(c, "fixed_string::at", [&](Out& o) { o << unsigned(f.at(1)); o << unsigned(f.at(4)); });
        inject(c, "fixed_string", [&](Out& o) { o << f.data() << uint64_t(f.size()) << (f < ip::make_fixed_string("abd")) << uint64_t(f.hash()); });
        inject(c, "an error of its own", [&](Out&) { throw ip::error(error_code::empty_address, "first", 12345, "a longer text than fits", std::string("second"), 'x'); });
        inject(c, "a parse error of its own", [&](Out&) { throw ip::parse_error(error_code::empty_octet, std::string("a message that does not fit into a short string")); });
        inject(c, "a logic error of its own", [&](Out&) { throw ip::logic_error(error_code::invalid_version, L"wide \x1234 text", 7u); });
        inject(c, "copying an error", [&](Out& o) { const ip::parse_error e(error_code::empty_octet, "text", 1, "more text than fits into a short string"), d(e); ip::parse_error g(error_code::empty_address, "x"); g = d; o << g.what() << g.code(); });
    }
}
int main(int argc, char** argv) { return mc::main(argc, argv); }
