// C32: a standard algorithm over (a part of) a sequence does what it does over the list of its elements.
#include "seq.hpp"
#include <algorithm>
#include <deque>
#include <iterator>
#include <list>
#include <numeric>
#include <set>
#include <unordered_set>
#if __cplusplus >= 202002L
#  include <ranges>
#endif

typedef std::vector<std::string> Log;
static std::string text(const ip_address& v) { return v.to_string(); }
template <typename B_> static std::string text(const ip::ip_address_base<B_>& v) { return v.to_string(); }
template <typename B_> static std::string text(const ip::ip_network_base<B_>& v) { return v.to_string(); }
static std::string text(const ip_network& v) { return v.to_string(); }
template <typename C_> static std::string all_of(const C_& v) { std::string r; for (auto it = v.begin(); it != v.end(); ++it) r += text(*it) + " "; return r; }

template <typename V> struct Less { bool down; bool operator()(const V& a, const V& b) const { return down ? b < a : a < b; } };
template <typename V> struct Even { bool operator()(const V& v) const { return v.hash() % 2 == 0; } };
template <typename V> struct Below { V p; bool down; bool operator()(const V& v) const { return down ? p < v : v < p; } };
template <typename V> struct Same { bool operator()(const V& a, const V& b) const { return a == b; } };
template <typename V> struct Add { size_t operator()(size_t a, const V& v) const { return a * 31 + v.hash(); } };

struct Notes {
    Log log;
    void pos(const char* what, uint64_t n) { log.push_back(std::string(what) + " at " + mc::num(n)); }
    void is(const char* what, bool b) { log.push_back(std::string(what) + (b ? " yes" : " no")); }
    void val(const char* what, const std::string& s) { log.push_back(std::string(what) + " " + s); }
};

// Algorithms of one pass or several over [b, e); probes: elements and values next to them.
template <typename It, typename V> static void forward_algorithms(Notes& t, It b, It e, const std::vector<V>& probes, bool down) {
    const Less<V> less = { down };
    t.pos("distance", uint64_t(std::distance(b, e)));
    t.val("copy", [&] { std::vector<V> v; std::copy(b, e, std::back_inserter(v)); return all_of(v); }());
    t.val("vector", all_of(std::vector<V>(b, e)));
    t.val("deque", all_of(std::deque<V>(b, e)));
    t.val("list", all_of(std::list<V>(b, e)));
    t.val("set", all_of(std::set<V>(b, e)));
    t.pos("unordered_set", std::unordered_set<V>(b, e).size());
    { std::vector<V> v(probes.begin(), probes.begin() + 1); v.insert(v.begin(), b, e); v.insert(v.end(), b, e); t.val("insert", all_of(v)); v.assign(b, e); t.val("assign", all_of(v)); }
    { std::vector<V> v; std::copy_if(b, e, std::back_inserter(v), Even<V>()); t.val("copy_if", all_of(v)); }
    { std::vector<V> v; std::remove_copy_if(b, e, std::back_inserter(v), Even<V>()); t.val("remove_copy_if", all_of(v)); }
    { std::vector<V> v; std::unique_copy(b, e, std::back_inserter(v)); t.val("unique_copy", all_of(v)); }
    { std::vector<V> v(16, probes[0]); const auto r = std::partial_sort_copy(b, e, v.begin(), v.begin() + 3, less); t.pos("partial_sort_copy", uint64_t(r - v.begin())); t.val("", all_of(v)); }
    { std::vector<V> v, w; std::partition_copy(b, e, std::back_inserter(v), std::back_inserter(w), Even<V>()); t.val("partition_copy", all_of(v) + "| " + all_of(w)); }
    { std::vector<size_t> v; std::transform(b, e, std::back_inserter(v), [](const V& x) { return x.hash(); }); size_t h = 0; for (size_t i = 0; i < v.size(); ++i) h = h * 31 + v[i]; t.pos("transform", h); }
    { std::string s; std::for_each(b, e, [&](const V& x) { s += text(x) + " "; }); t.val("for_each", s); }
    t.pos("accumulate", std::accumulate(b, e, size_t(1), Add<V>()));
    t.pos("inner_product", std::inner_product(b, e, b, size_t(0), std::plus<size_t>(), [](const V& x, const V& y) { return x.hash() ^ (y.hash() >> 1); }));
    t.is("all_of", std::all_of(b, e, Even<V>())); t.is("any_of", std::any_of(b, e, Even<V>())); t.is("none_of", std::none_of(b, e, Even<V>()));
    t.pos("count_if", uint64_t(std::count_if(b, e, Even<V>())));
    t.pos("find_if", uint64_t(std::distance(b, std::find_if(b, e, Even<V>())))); t.pos("find_if_not", uint64_t(std::distance(b, std::find_if_not(b, e, Even<V>()))));
    t.pos("adjacent_find", uint64_t(std::distance(b, std::adjacent_find(b, e))));
    t.pos("max_element", uint64_t(std::distance(b, std::max_element(b, e)))); t.pos("min_element", uint64_t(std::distance(b, std::min_element(b, e))));
    { const auto r = std::minmax_element(b, e); t.pos("minmax_element", uint64_t(std::distance(b, r.first))); t.pos("and", uint64_t(std::distance(b, r.second))); }
    t.is("is_sorted", std::is_sorted(b, e, less)); t.pos("is_sorted_until", uint64_t(std::distance(b, std::is_sorted_until(b, e, less))));
    t.is("equal itself", std::equal(b, e, b)); t.is("less than itself", std::lexicographical_compare(b, e, b, e));
    t.is("permutation", std::is_permutation(b, e, b));
    { std::vector<V> v; std::merge(b, e, probes.begin(), probes.end(), std::back_inserter(v), less); t.val("merge", all_of(v)); }
    { std::vector<V> v; std::set_union(b, e, probes.begin(), probes.end(), std::back_inserter(v), less); t.val("set_union", all_of(v)); }
    { std::vector<V> v; std::set_intersection(b, e, probes.begin(), probes.end(), std::back_inserter(v), less); t.val("set_intersection", all_of(v)); }
    { std::vector<V> v; std::set_difference(b, e, probes.begin(), probes.end(), std::back_inserter(v), less); t.val("set_difference", all_of(v)); }
    { std::vector<V> v; std::set_symmetric_difference(b, e, probes.begin(), probes.end(), std::back_inserter(v), less); t.val("set_symmetric_difference", all_of(v)); }
    t.is("includes", std::includes(probes.begin(), probes.end(), b, e, less));
    t.pos("find_first_of", uint64_t(std::distance(b, std::find_first_of(b, e, probes.begin(), probes.end()))));
    { const auto r = std::mismatch(b, e, b); t.pos("mismatch", uint64_t(std::distance(b, r.first))); t.pos("and", uint64_t(std::distance(b, r.second))); }
    for (size_t k = 0; k < probes.size(); ++k) {
        const V& p = probes[k];
        const Below<V> below = { p, down };
        t.pos("find", uint64_t(std::distance(b, std::find(b, e, p)))); t.pos("count", uint64_t(std::count(b, e, p)));
        t.pos("lower_bound", uint64_t(std::distance(b, std::lower_bound(b, e, p, less)))); t.pos("upper_bound", uint64_t(std::distance(b, std::upper_bound(b, e, p, less))));
        { const auto r = std::equal_range(b, e, p, less); t.pos("equal_range", uint64_t(std::distance(b, r.first))); t.pos("to", uint64_t(std::distance(b, r.second))); }
        t.is("binary_search", std::binary_search(b, e, p, less));
        t.pos("partition_point", uint64_t(std::distance(b, std::partition_point(b, e, below)))); t.is("is_partitioned", std::is_partitioned(b, e, below));
        { std::vector<V> v; std::remove_copy(b, e, std::back_inserter(v), p); t.val("remove_copy", all_of(v)); }
        { std::vector<V> v; std::replace_copy(b, e, std::back_inserter(v), p, probes[0]); t.val("replace_copy", all_of(v)); }
        t.pos("search", uint64_t(std::distance(b, std::search(b, e, probes.begin() + std::ptrdiff_t(k), probes.begin() + std::ptrdiff_t(k) + 1))));
        t.pos("search_n", uint64_t(std::distance(b, std::search_n(b, e, 1, p)))); t.pos("search_n 2", uint64_t(std::distance(b, std::search_n(b, e, 2, p))));
    }
    size_t n = 0;
    for (It i = b; ; ++i, ++n) { // every inner position
        { const auto r = std::search(b, e, i, e); t.pos("search of the rest", uint64_t(std::distance(b, r))); }
        { std::vector<V> v; std::rotate_copy(b, i, e, std::back_inserter(v)); t.val("rotate_copy", all_of(v)); }
        { std::vector<V> v; std::copy_n(b, n, std::back_inserter(v)); t.val("copy_n", all_of(v)); }
        t.is("rest is a permutation", std::is_permutation(i, e, i)); t.is("rest is less", std::lexicographical_compare(i, e, b, e)); t.is("rest is greater", std::lexicographical_compare(b, e, i, e));
        t.is("rest is included", std::includes(b, e, i, e, less)); t.is("rest is a prefix", std::equal(i, e, b));
        { It j = b; std::advance(j, std::ptrdiff_t(n)); t.is("advance", j == i); t.is("next", std::next(b, std::ptrdiff_t(n)) == i); }
        if (i == e) break;
    }
#if __cplusplus >= 201703L
    t.pos("reduce", std::reduce(b, e, probes[0], [](const V& x, const V& y) { return x < y ? y : x; }).hash());
    t.pos("transform_reduce", std::transform_reduce(b, e, size_t(0), std::plus<size_t>(), [](const V& x) { return x.hash(); }));
    { std::vector<V> v; std::exclusive_scan(b, e, std::back_inserter(v), probes[0], [](const V& x, const V& y) { return x < y ? y : x; }); t.val("exclusive_scan", all_of(v)); }
    { std::vector<V> v; std::inclusive_scan(b, e, std::back_inserter(v), [](const V& x, const V& y) { return x < y ? x : y; }); t.val("inclusive_scan", all_of(v)); }
#endif
#if __cplusplus >= 202002L && !defined(__clang__)
    t.pos("ranges::distance", uint64_t(std::ranges::distance(b, e)));
    t.is("ranges::is_sorted", std::ranges::is_sorted(b, e, less)); t.pos("ranges::count_if", uint64_t(std::ranges::count_if(b, e, Even<V>())));
    { std::vector<V> v; std::ranges::copy(b, e, std::back_inserter(v)); t.val("ranges::copy", all_of(v)); }
    { const auto r = std::ranges::subrange(b, e); std::string s; for (auto&& x : r | std::views::drop(1) | std::views::take(3)) s += text(x) + " "; t.val("drop, take", s); s.clear(); for (const auto& x : r | std::views::filter(Even<V>())) s += text(x) + " "; t.val("filter", s); s.clear(); for (const auto x : r | std::views::transform([](const V& y) { return y.hash(); })) s += mc::num(uint64_t(x)) + " "; t.val("views::transform", s); }
    for (size_t k = 0; k < probes.size(); ++k) {
        t.pos("ranges::find", uint64_t(std::ranges::distance(b, std::ranges::find(b, e, probes[k]))));
        t.pos("ranges::lower_bound", uint64_t(std::ranges::distance(b, std::ranges::lower_bound(b, e, probes[k], less)))); t.pos("ranges::upper_bound", uint64_t(std::ranges::distance(b, std::ranges::upper_bound(b, e, probes[k], less))));
    }
#endif
}

// Algorithms that also walk backwards or jump.
template <typename It, typename V> static void random_algorithms(Notes& t, It b, It e, const std::vector<V>& probes, bool down) {
    const Less<V> less = { down };
    { std::vector<V> v; std::reverse_copy(b, e, std::back_inserter(v)); t.val("reverse_copy", all_of(v)); }
    { std::vector<V> v(size_t(std::distance(b, e)) + 2, probes[0]); std::copy_backward(b, e, v.end() - 1); t.val("copy_backward", all_of(v)); }
    t.is("is_heap", std::is_heap(b, e, less)); t.pos("is_heap_until", uint64_t(std::is_heap_until(b, e, less) - b));
    const int64_t n = int64_t(std::distance(b, e));
    for (int64_t k = 0; k <= n; ++k) {
        t.is("prev", std::prev(e, n - k) == std::next(b, k));
        { It j = e; std::advance(j, k - n); t.is("advance back", j == b + k); t.pos("distance to", uint64_t(std::distance(b, j))); t.pos("distance back", uint64_t(std::distance(j, b))); }
        if (k < n) { t.val("element", text(b[k])); t.val("element from the end", text(e[k - n])); }
    }
#if __cplusplus >= 202002L && !defined(__clang__)
    for (int64_t k = 0; k <= n; ++k) { t.is("ranges::prev", std::ranges::prev(e, n - k) == std::ranges::next(b, k)); t.is("bounded next", std::ranges::next(b, n + 3, e) == e); t.is("bounded prev", std::ranges::prev(e, n + 3, b) == b); }
    { std::vector<V> v; std::ranges::reverse_copy(b, e, std::back_inserter(v)); t.val("ranges::reverse_copy", all_of(v)); }
#endif
}

template <bool Random> struct Run {
    template <typename It, typename V> static void of(Notes& t, It b, It e, const std::vector<V>& p, bool down) { forward_algorithms(t, b, e, p, down); random_algorithms(t, b, e, p, down); }
};
template <> struct Run<false> {
    template <typename It, typename V> static void of(Notes& t, It b, It e, const std::vector<V>& p, bool down) { forward_algorithms(t, b, e, p, down); }
};

// Every part [i, j) of the sequence against the same part of the list.
template <bool Random, typename It, typename V> static void parts(mc::Ctx& c, It b, const std::vector<V>& list, const std::vector<V>& probes, bool down, const std::string& what) {
    const size_t n = list.size();
    It from = b;
    for (size_t i = 0; i <= n; ++i) {
        It to = from;
        for (size_t j = i; j <= n; ++j) {
            if (c.take()) {
                Notes got, want;
                Run<Random>::of(got, from, to, probes, down);
                Run<Random>::of(want, list.begin() + std::ptrdiff_t(i), list.begin() + std::ptrdiff_t(j), probes, down);
                c.fresh();
                MC_CHECK(got.log.size() == want.log.size(), what + ": another number of results");
                for (size_t k = 0; k < got.log.size() && k < want.log.size(); ++k) { c.step(); if (got.log[k] != want.log[k]) { c.fail(what + ": over the elements [" + mc::num(uint64_t(i)) + ", " + mc::num(uint64_t(j)) + "): " + got.log[k] + " instead of " + want.log[k]); return; } }
                if (c.wants_sample()) c.sample(what + " [" + mc::num(uint64_t(i)) + ", " + mc::num(uint64_t(j)) + "): " + mc::num(uint64_t(got.log.size())) + " results agree");
            }
            if (j < n) ++to;
        }
        if (i < n) ++from;
    }
}
template <typename V> static std::vector<V> with_neighbours(std::vector<V> v, const V& low, const V& high, bool down) {
    v.push_back(low); v.push_back(high);
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    if (down) std::reverse(v.begin(), v.end());
    return v;
}
template <typename V, typename Seq> static void sequence(mc::Ctx& c, const Seq& s, std::vector<V> list, const V& low, const V& high, const std::string& what) {
    MC_CHECK(uint64_t(std::distance(s.begin(), s.end())) == list.size() && uint64_t(std::distance(s.rbegin(), s.rend())) == list.size() && uint64_t(std::distance(std::begin(s), std::end(s))) == list.size(), what + ": distance");
    parts<true>(c, s.begin(), list, with_neighbours(list, low, high, false), false, what);
    std::reverse(list.begin(), list.end());
    parts<true>(c, s.rbegin(), list, with_neighbours(list, low, high, true), true, what + " reversed");
}

template <int V> static typename T<V>::network mk(u128 a, int prefix) { error_code e = error_code::no_error; return T<V>::network::from_address(T<V>::make(a), e, size_t(prefix), false); }
template <int V> static u128 top() { return ref::all(V); }

template <int V> static void hosts(mc::Ctx& c, u128 base, int host_bits) {
    const int prefix = T<V>::W - host_bits;
    const u128 a = base & ref::netmask(V, prefix), size = ref::ones(host_bits);
    const u128 skip = host_bits >= 2 ? 1 : 0, count = host_bits < 2 ? size + 1 : V == 4 ? size - 1 : size;
    typedef typename T<V>::address A;
    std::vector<A> list; std::vector<ip_address> any;
    for (u128 i = 0; i < count; ++i) { list.push_back(T<V>::make(a + skip + i)); any.push_back(ip_address(list.back())); }
    const typename T<V>::network n = mk<V>(a, prefix);
    const A low = T<V>::make(u128(0)), high = T<V>::make(top<V>());
    sequence(c, n.hosts(), list, low, high, n.to_string() + " hosts");
    sequence(c, ip_network(n).hosts(), any, ip_address(low), ip_address(high), "ip_network " + n.to_string() + " hosts");
}
template <int V> static void subnets(mc::Ctx& c, u128 base, int prefix, int diff) {
    const int np = prefix + diff;
    const u128 a = base & ref::netmask(V, prefix), step = np == 0 ? u128(0) : u128(1) << (T<V>::W - np);
    typedef typename T<V>::network N;
    std::vector<N> list; std::vector<ip_network> any;
    for (int i = 0; i < 1 << diff; ++i) { list.push_back(mk<V>(a + u128(uint64_t(i)) * step, np)); any.push_back(ip_network(list.back())); }
    const N n = mk<V>(a, prefix), low = mk<V>(0, 0), high = mk<V>(top<V>(), T<V>::W);
    error_code e = error_code::no_error;
    sequence(c, n.subnets(e, size_t(diff)), list, low, high, n.to_string() + " subnets +" + mc::num(diff));
    sequence(c, ip_network(n).subnets(e, size_t(diff)), any, ip_network(low), ip_network(high), "ip_network " + n.to_string() + " subnets +" + mc::num(diff));
}
template <int V> static void excludes(mc::Ctx& c, u128 base, int prefix, int inner) {
    const u128 a = base & ref::netmask(V, inner);
    typedef typename T<V>::network N;
    const N n = mk<V>(a, prefix), o = mk<V>(a, inner);
    std::vector<N> list; std::vector<ip_network> any;
    for (int p = prefix + 1; p <= inner; ++p) { list.push_back(mk<V>(a ^ (u128(1) << (T<V>::W - p)), p)); any.push_back(ip_network(list.back())); }
    const N low = mk<V>(0, 0), high = mk<V>(top<V>(), T<V>::W);
    error_code e = error_code::no_error;
    const auto s = n.address_exclude(o, e);
    const auto t = ip_network(n).address_exclude(ip_network(o), e);
    const std::string what = n.to_string() + " without " + o.to_string();
    MC_CHECK(e == error_code::no_error && uint64_t(std::distance(s.begin(), s.end())) == list.size() && uint64_t(std::distance(t.begin(), t.end())) == list.size(), what + ": distance");
    // the order is that of the splitting, not of the addresses: the probes are what they are
    std::vector<N> p = list; p.push_back(low); p.push_back(high);
    std::vector<ip_network> q = any; q.push_back(ip_network(low)); q.push_back(ip_network(high));
    parts<false>(c, s.begin(), list, p, false, what);
    parts<false>(c, t.begin(), any, q, false, "ip_network " + what);
}

template <int V> static void all_hosts(mc::Ctx& c) { for (int b = 0; b <= int(c.bound(3, 4, 2)); ++b) { hosts<V>(c, 0, b); hosts<V>(c, top<V>(), b); hosts<V>(c, top<V>() >> 1, b); hosts<V>(c, ref::mk(1, 0) & top<V>(), b); } }
template <int V> static void all_subnets(mc::Ctx& c) {
    const int W = T<V>::W, at[] = { 0, 1, 8, 30, 31, W / 2 - 1, W / 2, W - 4, W - 1, W };
    for (int d = 0; d <= int(c.bound(3, 4, 2)); ++d) for (size_t i = 0; i < sizeof at / sizeof *at; ++i) if (at[i] + d <= W) { subnets<V>(c, 0, at[i], d); if (at[i]) subnets<V>(c, top<V>(), at[i], d); }
}
// every network of prefix length at + d inside one of prefix length at
template <int V> static void all_excludes(mc::Ctx& c) {
    const int W = T<V>::W, at[] = { 0, 1, 23, W / 2 - 3, W / 2, W - 6, W - 4, W - 3, W - 2, W - 1 };
    const u128 bases[] = { 0, top<V>(), top<V>() / 3 };
    for (size_t i = 0; i < sizeof at / sizeof *at; ++i)
        for (int d = 1; d <= int(c.bound(4, 6, 3)) && at[i] + d <= W; ++d)
            for (size_t k = 0; k < 3; ++k)
                for (u128 part = 0; part < (u128(1) << d); ++part) excludes<V>(c, (bases[k] & ref::netmask(V, at[i])) | (part << (W - at[i] - d)), at[i], at[i] + d);
}
MC_SPACE(hosts4, "every algorithm over every part of IPv4 and version-agnostic hosts sequences, forward and reverse, at both ends and the middle of the space") { all_hosts<4>(c); }
MC_SPACE(hosts6, "the same for IPv6") { all_hosts<6>(c); }
MC_SPACE(subnets4, "every algorithm over every part of IPv4 and version-agnostic subnets sequences, forward and reverse, for prefix lengths across the space") { all_subnets<4>(c); }
MC_SPACE(subnets6, "the same for IPv6") { all_subnets<6>(c); }
MC_SPACE(excludes4, "every algorithm over every part of the networks left by an IPv4 exclusion") { all_excludes<4>(c); }
MC_SPACE(excludes6, "the same for IPv6") { all_excludes<6>(c); }

// Long sequences: the binary searches and jumps of the standard library.
template <int V, typename S, typename F> static void searches(mc::Ctx& c, const S& s, int width, F element, const std::string& what) {
    std::vector<uint64_t> at;
    const uint64_t count = uint64_t(1) << width, last = count - 1;
    std::set<uint64_t> set;
    for (int b = 0; b <= width; ++b) for (int k = -1; k <= 1; ++k) { const uint64_t i = (uint64_t(1) << b) + uint64_t(int64_t(k)); if (i <= last) { set.insert(i); set.insert(last - i); } }
    at.assign(set.begin(), set.end());
    MC_CHECK(uint64_t(std::distance(s.begin(), s.end())) == count && uint64_t(std::distance(s.rbegin(), s.rend())) == count, what + ": distance");
    for (size_t k = 0; k < at.size(); ++k) if (c.take()) {
        const uint64_t i = at[k];
        const auto v = element(i);
        typedef decltype(element(i)) E;
        c.fresh();
        const auto b = s.begin(), e = s.end();
        const auto r = s.rbegin(), q = s.rend();
        const Less<E> up = { false }, down = { true };
        const bool ok = std::lower_bound(b, e, v) - b == int64_t(i) && std::upper_bound(b, e, v) - b == int64_t(i) + 1 && std::binary_search(b, e, v) && e - std::lower_bound(b, e, v, up) == int64_t(count - i)
            && std::lower_bound(r, q, v, down) - r == int64_t(last - i) && std::upper_bound(r, q, v, down) - r == int64_t(last - i) + 1 && std::binary_search(r, q, v, down);
        MC_CHECK(ok, what + ": searching for element " + mc::num(i));
        auto x = b; std::advance(x, int64_t(i)); auto y = q; std::advance(y, -int64_t(i) - 1);
        MC_CHECK(*x == v && *y == v && *std::next(b, int64_t(i)) == v && *std::prev(e, int64_t(count - i)) == v && std::distance(b, x) == int64_t(i) && std::distance(x, b) == -int64_t(i) && std::distance(r, y) == int64_t(last - i), what + ": jumping to element " + mc::num(i));
        const auto range = std::equal_range(b, e, v);
        MC_CHECK(range.first == x && std::distance(range.first, range.second) == 1 && std::partition_point(b, e, [&](const E& z) { return z < v; }) == x, what + ": dividing at element " + mc::num(i));
    }
}
template <int V> static void long_sequences(mc::Ctx& c) {
    const int W = T<V>::W, widths[] = { 6, 16, 24, 31, 32, 33, 47, 62 };
    for (size_t k = 0; k < sizeof widths / sizeof *widths; ++k) for (int high = 0; high < 2; ++high) for (int low = 0; low < 3; ++low) {
        const int w = widths[k], shift = low == 0 ? 0 : low == 1 ? 1 : W - w; // subnets of a network at the end, inside and at the start
        if (w > W || w + shift > W || (low && w == W)) continue;
        const int prefix = W - w - shift;
        if (high && !prefix) continue;
        const u128 a = high ? top<V>() & ref::netmask(V, prefix) : u128(0);
        const auto n = mk<V>(a, prefix);
        error_code e = error_code::no_error;
        searches<V>(c, n.subnets(e, size_t(w)), w, [=](uint64_t i) { return mk<V>(a + (u128(i) << shift), prefix + w); }, n.to_string() + " subnets +" + mc::num(w));
        searches<V>(c, ip_network(n).subnets(e, size_t(w)), w, [=](uint64_t i) { return ip_network(mk<V>(a + (u128(i) << shift), prefix + w)); }, "ip_network " + n.to_string() + " subnets +" + mc::num(w));
    }
}
MC_SPACE(searches4, "binary searches, jumps and distances to elements around every power of two from both ends of IPv4 and version-agnostic subnets sequences of up to 2^32 elements") { long_sequences<4>(c); }
MC_SPACE(searches6, "the same for IPv6 sequences of up to 2^62 elements") { long_sequences<6>(c); }

int main(int argc, char** argv) { return mc::main(argc, argv); }
