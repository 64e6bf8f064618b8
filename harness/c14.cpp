// C14: any sequence of iterator operations leaves the iterator at the position the operations denote.
#include "seq.hpp"

enum Form { INC, POSTINC, DEC, POSTDEC, ADD_S, SUB_S, ADD_U, SUB_U, PLUS_S, MINUS_S, PLUS_U, MINUS_U, S_PLUS, U_PLUS, ROUNDTRIP, COPY, FORMS };
static const char* const form_name[] = { "++it", "it++", "--it", "it--", "it += ", "it -= ", "it += u", "it -= u", "it + ", "it - ", "it + u", "it - u", "+ it ", "u+ it ", "reverse/base", "copy" };
struct Op { int form; bool neg; u128 amount; }; // neg: a signed amount with the sign turned round
static std::string show(const Op& o) { return form_name[o.form] + (o.form < ADD_S || o.form >= ROUNDTRIP ? std::string() : (o.neg ? "-" : "") + ref::dec(o.amount)); }

static bool is_signed(int f) { return f == ADD_S || f == SUB_S || f == PLUS_S || f == MINUS_S || f == S_PLUS; }
static bool forward(const Op& o) {
    switch (o.form) {
    case INC: case POSTINC: return true;
    case DEC: case POSTDEC: return false;
    case ADD_S: case PLUS_S: case S_PLUS: return !o.neg;
    case SUB_S: case MINUS_S: return o.neg;
    case SUB_U: case MINUS_U: return false;
    default: return true;
    }
}
// target position, if inside [0, count]; bits: of the unsigned type of the iterator
static bool target(const Def& d, int bits, const Op& o, u128 pos, u128& out) {
    u128 k = o.amount;
    if (o.form <= POSTDEC) k = 1;
    if (o.form >= ROUNDTRIP) k = 0;
    if (is_signed(o.form) && k > ref::ones(63) && !(o.neg && k == u128(1) << 63)) return false;
    if (!is_signed(o.form) && k > ref::ones(bits)) return false; // beyond the unsigned type of the iterator
    const u128 end = d.whole ? ~u128(0) : d.count; // for 2^128 elements the end position is not representable here
    if (forward(o)) { if (k > end - pos) return false; out = pos + k; } else { if (k > pos) return false; out = pos - k; }
    return true;
}

template <typename It> struct is_reverse { enum { value = 0 }; };
template <typename X> struct is_reverse<ip::ip_reverse_iterator<X> > { enum { value = 1 }; };
template <typename It> struct round_trip { static It of(const It& it) { return ip::ip_reverse_iterator<It>(it).base(); } };
template <typename X> struct round_trip<ip::ip_reverse_iterator<X> > { static ip::ip_reverse_iterator<X> of(const ip::ip_reverse_iterator<X>& it) { return ip::ip_reverse_iterator<X>(it.base()); } };

template <typename E, typename It> struct World {
    const Def& d;
    It begin, end;
    std::string what;
    typedef typename It::uint_type UI;
    World(const Def& dd, const It& b, const It& e, const std::string& w) : d(dd), begin(b), end(e), what(w) {}

    It canonical(u128 p) const { // the iterator obtained directly
        if (!d.whole && p == d.count) return end;
        return begin + conv<UI>::of(p);
    }
    auto want(u128 p) const -> decltype(E::at(d, p)) { return E::at(d, is_reverse<It>::value ? d.last() - p : p); }

    // executes the operation; old value of post-increments is compared through `old`
    It apply(It it, const Op& o, bool& old_ok, const It& before) const {
        const int64_t s = o.neg ? (o.amount == u128(1) << 63 ? INT64_MIN : -int64_t(o.amount)) : int64_t(o.amount);
        const UI u = conv<UI>::of(o.amount);
        old_ok = true;
        switch (o.form) {
        case INC: { It& r = ++it; old_ok = &r == &it; return it; }
        case POSTINC: { const It old = it++; old_ok = old == before; return it; }
        case DEC: { It& r = --it; old_ok = &r == &it; return it; }
        case POSTDEC: { const It old = it--; old_ok = old == before; return it; }
        case ADD_S: { It& r = it += s; old_ok = &r == &it; return it; }
        case SUB_S: { It& r = it -= s; old_ok = &r == &it; return it; }
        case ADD_U: { It& r = it += u; old_ok = &r == &it; return it; }
        case SUB_U: { It& r = it -= u; old_ok = &r == &it; return it; }
        case PLUS_S: { const It r = it + s; old_ok = it == before; return r; }
        case MINUS_S: { const It r = it - s; old_ok = it == before; return r; }
        case PLUS_U: { const It r = it + u; old_ok = it == before; return r; }
        case MINUS_U: { const It r = it - u; old_ok = it == before; return r; }
        case S_PLUS: return s + it;
        case U_PLUS: return u + it;
        case ROUNDTRIP: return round_trip<It>::of(it);
        default: { It a(it), b = begin; b = a; It& r = b; b = r; return b; }
        }
    }
    bool judge(mc::Ctx& c, const It& it, u128 p, const std::string& how) const {
        const std::string where = what + ": after " + how + ", at position " + ref::show(p);
        const It k = canonical(p);
        c.step(3);
        if (!(it == k) || it != k || !(k == it)) { c.fail(where + ", the iterator differs from begin() + position"); return false; }
        const bool at_end = !d.whole && p == d.count;
        if ((it == end) != at_end) { c.fail(where + ", equality with end() is " + B(it == end)); return false; }
        if (!at_end) {
            c.step(2);
            if (!(to_ref(*it) == want(p))) { c.fail(where + ", dereferences to " + S(to_ref(*it)) + " instead of " + S(want(p))); return false; }
            if (!(to_ref(*it.operator->()) == want(p))) { c.fail(where + ", operator-> gives " + S(to_ref(*it.operator->()))); return false; }
        }
        // order and distance against other positions
        u128 q[6];
        int n = 0;
        const u128 last = d.whole ? ~u128(0) : d.count;
        q[n++] = 0; q[n++] = last; q[n++] = p; q[n++] = last >> 1;
        if (p) q[n++] = p - 1;
        if (p < last) q[n++] = p + 1;
        for (int i = 0; i < n; ++i) {
            const It o = canonical(q[i]);
            const unsigned got = unsigned(it == o) | unsigned(it != o) << 1 | unsigned(it < o) << 2 | unsigned(it <= o) << 3 | unsigned(it > o) << 4 | unsigned(it >= o) << 5;
            const unsigned exp = p == q[i] ? (1u | 8 | 32) : p < q[i] ? (2u | 4 | 8) : (2u | 16 | 32);
            c.step(6);
            if (got != exp) { c.fail(where + ", comparison with position " + ref::show(q[i]) + " gives " + mc::hex(got) + " instead of " + mc::hex(exp)); return false; }
#if defined(__cpp_impl_three_way_comparison) && __cplusplus > 201703L && !defined(IPADDRESS_NO_SPACESHIP_OPERATOR)
            const auto w = it <=> o;
            c.step();
            if (!(p == q[i] ? w == 0 : p < q[i] ? w < 0 : w > 0)) { c.fail(where + ", <=> with position " + ref::show(q[i])); return false; }
#endif
            const u128 dist = p > q[i] ? p - q[i] : q[i] - p;
            if (dist <= ref::ones(63)) {
                c.step();
                const int64_t w = p >= q[i] ? int64_t(dist) : -int64_t(dist);
                if (it - o != w) { c.fail(where + ", distance to position " + ref::show(q[i]) + " is " + mc::inum(it - o) + " instead of " + mc::inum(w)); return false; }
            }
            if (p >= q[i] && dist <= ref::ones(int(sizeof(UI)) * 8)) {
                c.step();
                if (U(it.uint_diff(o)) != dist) { c.fail(where + ", uint_diff to position " + ref::show(q[i]) + " is " + ref::show(U(it.uint_diff(o)))); return false; }
            }
            if (!(q[i] == last && !d.whole)) { // indexing relative to the iterator
                if (q[i] >= p && dist <= ref::ones(d.width)) { c.step(); if (!(to_ref(it[conv<UI>::of(dist)]) == want(q[i]))) { c.fail(where + ", it[" + ref::dec(dist) + "] is " + S(to_ref(it[conv<UI>::of(dist)])) + " instead of " + S(want(q[i]))); return false; } }
                if (dist <= ref::ones(63)) { const int64_t w = q[i] >= p ? int64_t(dist) : -int64_t(dist); c.step(); if (!(to_ref(it[w]) == want(q[i]))) { c.fail(where + ", it[" + mc::inum(w) + "] is " + S(to_ref(it[w])) + " instead of " + S(want(q[i]))); return false; } }
            }
        }
        return true;
    }
    void explore(mc::Ctx& c, int depth) const {
        std::vector<u128> amt;
        const u128 last = d.whole ? ~u128(0) : d.count;
        std::vector<Op> core, full;
        { const u128 a[] = { 2, last >> 1, last - 1, last, u128(1) << 31 };
          for (int f = 0; f < 4; f += 2) { const Op o = { f, false, 1 }; core.push_back(o); }
          std::set<u128> s(a, a + 5); s.erase(0);
          for (std::set<u128>::iterator i = s.begin(); i != s.end(); ++i) {
              if (*i > last || (*i == u128(1) << 31 && last < (u128(1) << 32))) continue;
              const Op o[] = { { ADD_S, false, *i }, { ADD_S, true, *i }, { ADD_U, false, *i }, { SUB_U, false, *i } };
              for (int k = 0; k < 4; ++k) { if (is_signed(o[k].form) && *i > ref::ones(63)) continue; core.push_back(o[k]); }
          } }
        { const u128 a[] = { 0, 1, 2, 3, last >> 1, last - 2, last - 1, last, ref::ones(31), u128(1) << 31, ref::ones(32), u128(1) << 32, ref::ones(63), u128(1) << 63, ref::ones(64), u128(1) << 64, u128(1) << 127 };
          std::set<u128> s(a, a + sizeof a / sizeof *a);
          for (int f = 0; f < FORMS; ++f) {
              if (f < ADD_S || f >= ROUNDTRIP) { const Op o = { f, false, 1 }; full.push_back(o); continue; }
              for (std::set<u128>::iterator i = s.begin(); i != s.end(); ++i) {
                  if (*i > last) continue;
                  const Op o = { f, false, *i }, m = { f, true, *i };
                  full.push_back(o);
                  if (is_signed(f)) full.push_back(m);
              }
          } }
        uint64_t paths = 1;
        for (int i = 0; i < depth - 1; ++i) paths *= core.size();
        for (int start = 0; start < (d.whole ? 1 : 2); ++start)
            c.range(paths, 4, [&](uint64_t x) {
                It it = start ? end : begin;
                u128 p = start ? d.count : 0;
                std::string how = start ? "end()" : "begin()";
                bool ok;
                for (int i = 0; i < depth - 1; ++i) {
                    const Op& o = core[x % core.size()];
                    x /= core.size();
                    u128 q;
                    if (!target(d, int(sizeof(UI)) * 8, o, p, q)) return;
                    how += " " + show(o);
                    it = apply(it, o, ok, canonical(p));
                    if (!ok) { c.fail(what + ": " + how + " returns the wrong iterator"); return; }
                    p = q;
                }
                c.fresh();
                if (!judge(c, it, p, how)) return;
                for (size_t k = 0; k < full.size(); ++k) {
                    u128 q;
                    if (!target(d, int(sizeof(UI)) * 8, full[k], p, q)) continue;
                    const It r = apply(it, full[k], ok, canonical(p));
                    c.fresh();
                    if (!ok) { c.fail(what + ": " + how + " " + show(full[k]) + " returns or leaves the wrong iterator"); return; }
                    if (!judge(c, r, q, how + " " + show(full[k]))) return;
                }
                if (c.wants_sample()) c.sample(what + ": " + how + " then each of " + mc::num(full.size()) + " operations");
            });
    }
};
template <typename E, typename Seq> static void both(mc::Ctx& c, const Seq& s, const Def& d, const std::string& what) {
    const int depth = int(c.bound(3, 4, 2));
    World<E, typename Seq::const_iterator>(d, s.begin(), s.end(), what).explore(c, depth);
    World<E, typename Seq::const_reverse_iterator>(d, s.rbegin(), s.rend(), what + " reversed").explore(c, depth);
}
template <int V> static typename T<V>::network mk(u128 a, int prefix) { error_code e = error_code::no_error; return T<V>::network::from_address(T<V>::make(a), e, size_t(prefix), false); }

template <int V, bool Any> static void hosts(mc::Ctx& c, u128 base, int prefix) {
    const int W = T<V>::W;
    const u128 a = base & ref::netmask(V, prefix), size = ref::ones(W - prefix);
    Def d;
    d.width = W; d.hosts = true; d.version = V; d.prefix = 0; d.step = 1; d.whole = false;
    if (prefix >= W - 1) { d.first = a; d.count = size + 1; } else if (V == 4) { d.first = a + 1; d.count = size - 1; } else { d.first = a + 1; d.count = size; }
    const typename T<V>::network n = mk<V>(a, prefix);
    if (Any) both<HostOf>(c, ip_network(n).hosts(), d, "ip_network " + n.to_string() + " hosts"); else both<HostOf>(c, n.hosts(), d, n.to_string() + " hosts");
}
template <int V, bool Any> static void subnets(mc::Ctx& c, u128 base, int prefix, int np) {
    const u128 a = base & ref::netmask(V, prefix);
    Def d;
    d.width = T<V>::W; d.hosts = false; d.version = V; d.prefix = np; d.first = a;
    d.step = np == 0 ? u128(0) : u128(1) << (d.width - np);
    d.whole = np - prefix == 128;
    d.count = d.whole ? u128(0) : u128(1) << (np - prefix);
    const typename T<V>::network n = mk<V>(a, prefix);
    error_code e = error_code::no_error;
    if (Any) both<NetOf>(c, ip_network(n).subnets(e, 1, size_t(np)), d, "ip_network " + n.to_string() + " subnets /" + mc::num(np)); else both<NetOf>(c, n.subnets(e, 1, size_t(np)), d, n.to_string() + " subnets /" + mc::num(np));
}
template <int V, bool Any> static void all_hosts(mc::Ctx& c) {
    const int W = T<V>::W;
    const int off[] = { 0, 1, 2, 3 };
    for (int i = 0; i < 4; ++i) { hosts<V, Any>(c, 0, W - off[i]); hosts<V, Any>(c, ref::all(V), W - off[i]); hosts<V, Any>(c, ref::all(V) >> 1, W - off[i]); }
    hosts<V, Any>(c, ref::mk(0xFFull << 56, 0xC0A80100), W - 8);
    const int wide[] = { 0, 1, W / 2, W / 2 - 1, W / 2 + 1 };
    for (int i = 0; i < 5; ++i) { hosts<V, Any>(c, 0, wide[i]); hosts<V, Any>(c, ref::all(V), wide[i]); }
    if (V == 6) { hosts<V, Any>(c, ref::mk(9, 0), 63); hosts<V, Any>(c, ref::all(6), 66); hosts<V, Any>(c, ref::all(6), 96); }
}
template <int V, bool Any> static void all_subnets(mc::Ctx& c) {
    const int W = T<V>::W;
    const int p[][2] = { { W, W }, { W - 1, W - 1 }, { W - 1, W }, { W - 2, W }, { W - 4, W - 2 }, { 8, 10 }, { 8, 8 }, { 0, 0 }, { 0, 1 }, { 0, 2 }, { 1, 1 }, { 1, 2 }, { 0, W / 2 }, { 1, W - 1 }, { 0, W - 1 }, { 0, W }, { W / 2, W } };
    for (size_t i = 0; i < sizeof p / sizeof *p; ++i) { subnets<V, Any>(c, 0, p[i][0], p[i][1]); if (p[i][0]) { subnets<V, Any>(c, ref::all(V), p[i][0], p[i][1]); subnets<V, Any>(c, ref::all(V) >> 1, p[i][0], p[i][1]); } }
    if (V == 6) { subnets<V, Any>(c, ref::all(6), 33, 97); subnets<V, Any>(c, ref::all(6), 60, 68); subnets<V, Any>(c, 0, 63, 64); }
}
MC_SPACE(hosts4, "all operation sequences up to the depth from begin and end of IPv4 hosts sequences at the bottom, middle and top of the space, forward and reverse") { all_hosts<4, false>(c); }
MC_SPACE(hosts6, "the same for IPv6") { all_hosts<6, false>(c); }
MC_SPACE(subnets4, "the same for IPv4 subnets sequences, including the whole space") { all_subnets<4, false>(c); }
MC_SPACE(subnets6, "the same for IPv6 subnets sequences, including the whole space") { all_subnets<6, false>(c); }
MC_SPACE(any_hosts, "the same for version-agnostic hosts sequences") { all_hosts<4, true>(c); all_hosts<6, true>(c); }
MC_SPACE(any_subnets, "the same for version-agnostic subnets sequences") { all_subnets<4, true>(c); all_subnets<6, true>(c); }

// Iterators over different versions: never equal, ordered by version.
template <typename It> static void cross(mc::Ctx& c, const It& a, const It& b, const std::string& what) {
    MC_CHECK(!(a == b) && a != b && !(b == a), what + ": iterators of different versions are equal");
    MC_CHECK(a < b && a <= b && b > a && b >= a && !(b < a) && !(a > b) && !(a >= b) && !(b <= a), what + ": iterators of different versions are not ordered by version");
}
MC_SPACE(versions, "version-agnostic iterators of different versions") {
    const u128 b6[] = { 0, ref::all(6), 1 }; const uint32_t b4[] = { 0, 0xFFFFFFFF, 0x0A000000 };
    for (int i = 0; i < 9; ++i) for (int p = 0; p <= 32; p += 4) if (c.take()) {
        const ip_network x = mk<4>(b4[i % 3], p), y = mk<6>(b6[i / 3], p * 4);
        c.fresh();
        cross(c, x.hosts().begin(), y.hosts().begin(), x.to_string() + " " + y.to_string() + " hosts");
        cross(c, x.hosts().end(), y.hosts().begin(), x.to_string() + " " + y.to_string() + " hosts end");
        error_code e = error_code::no_error;
        cross(c, x.subnets(e).begin(), y.subnets(e).begin(), x.to_string() + " " + y.to_string() + " subnets");
        cross(c, x.subnets(e).end(), y.subnets(e).begin(), x.to_string() + " " + y.to_string() + " subnets end");
    }
}
// Amounts of every integer type.
template <typename I, typename It> static bool moved(const It& b, const It& e, int64_t n, int64_t i, int64_t j) {
    const int64_t k = j - i;
    const It from = b + i, to = b + j;
    const I m = I(k), back = I(-k);
    const bool up = k >= 0 || std::is_signed<I>::value, down = k <= 0 || std::is_signed<I>::value;
    It x = from, y = from;
    if (up && !(from + m == to && m + from == to && (x += m) == to && x == to)) return false;
    if (down && !(from - back == to && (y -= back) == to && y == to)) return false;
    return !(up && j < n) || (to_ref(from[m]) == to_ref(*to) && from + m != e);
}
template <typename It> static void amounts(mc::Ctx& c, const It& b, const It& e, int64_t n, const std::string& what) {
    c.range(uint64_t(n + 1), 1, [&](uint64_t at) {
        const int64_t i = int64_t(at);
        for (int64_t j = 0; j <= n; ++j) {
            c.fresh();
            unsigned bad = 0;
            bad |= !moved<signed char>(b, e, n, i, j) ? 1u : 0; bad |= !moved<short>(b, e, n, i, j) ? 2u : 0; bad |= !moved<int>(b, e, n, i, j) ? 4u : 0; bad |= !moved<long>(b, e, n, i, j) ? 8u : 0; bad |= !moved<long long>(b, e, n, i, j) ? 16u : 0;
            bad |= !moved<unsigned char>(b, e, n, i, j) ? 32u : 0; bad |= !moved<unsigned short>(b, e, n, i, j) ? 64u : 0; bad |= !moved<unsigned>(b, e, n, i, j) ? 128u : 0; bad |= !moved<unsigned long>(b, e, n, i, j) ? 256u : 0; bad |= !moved<unsigned long long>(b, e, n, i, j) ? 512u : 0;
            MC_CHECK(!bad, what + ": moving from " + mc::inum(i) + " to " + mc::inum(j) + " by some integer type fails, mask " + mc::hex(bad));
        }
    });
}
template <typename Seq> static void amounts(mc::Ctx& c, const Seq& s, const std::string& what) {
    const int64_t n = s.end() - s.begin();
    amounts(c, s.begin(), s.end(), n, what);
    amounts(c, s.rbegin(), s.rend(), n, what + " reversed");
}
template <int V> static void amounts(mc::Ctx& c) {
    const int W = T<V>::W;
    for (int bits = 0; bits <= int(c.bound(3, 5, 2)); ++bits) for (int high = 0; high < 2; ++high) {
        const typename T<V>::network n = mk<V>(high ? ref::all(V) : u128(0), W - bits);
        error_code e = error_code::no_error;
        amounts(c, n.hosts(), n.to_string() + " hosts"); amounts(c, n.subnets(e, size_t(bits)), n.to_string() + " subnets");
        amounts(c, ip_network(n).hosts(), "ip_network " + n.to_string() + " hosts"); amounts(c, ip_network(n).subnets(e, size_t(bits)), "ip_network " + n.to_string() + " subnets");
        if (high || bits > 3) { const typename T<V>::network w = mk<V>(high ? ref::all(V) : u128(0), 7); amounts(c, w.subnets(e, size_t(bits)), w.to_string() + " subnets"); amounts(c, ip_network(w).subnets(e, size_t(bits)), "ip_network " + w.to_string() + " subnets"); }
    }
}
MC_SPACE(amounts4, "moves between all pairs of positions of IPv4 and version-agnostic sequences by amounts of every integer type") { amounts<4>(c); }
MC_SPACE(amounts6, "the same for IPv6") { amounts<6>(c); }
int main(int argc, char** argv) { return mc::main(argc, argv); }
