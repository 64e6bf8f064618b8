// Judges a sequence (hosts, subnets; typed or version-agnostic) against its definition by index.
#ifndef SEQ_HPP
#define SEQ_HPP
#include "lib.hpp"

template <typename U_> struct conv { static U_ of(u128 v) { return U_(v); } };
template <> struct conv<uint128_t> { static uint128_t of(u128 v) { return L(v); } };

// A sequence of `count` elements (count == 0 with whole set: 2^128).
struct Def {
    int width;
    u128 count;
    bool whole;      // 2^128 elements
    bool hosts;
    int version, prefix;   // of the elements
    u128 first, step;
    ref::addr host(u128 i) const { return ref::addr(version, first + i); }
    ref::net net(u128 i) const { return ref::net(version, first + i * step, prefix); }
    u128 last() const { return count - 1; }
    bool small(u128 n) const { return !whole && count <= n; }
};
struct HostOf { static ref::addr at(const Def& d, u128 i) { return d.host(i); } };
struct NetOf { static ref::net at(const Def& d, u128 i) { return d.net(i); } };

inline std::vector<u128> indices(const Def& d) {
    std::vector<u128> r;
    std::set<u128> s;
    const u128 l = d.last();
    if (!d.whole && !d.count) return r;
    for (int i = 0; i < 4; ++i) { if (d.whole || u128(i) <= l) { s.insert(u128(i)); s.insert(l - u128(i)); } }
    for (int b = 0; b < 128; ++b) for (int k = -1; k <= 1; ++k) { const u128 i = (u128(1) << b) + u128(__int128(k)); if (i <= l) { s.insert(i); s.insert(l - i); } }
    return std::vector<u128>(s.begin(), s.end());
}

#define SEQ_IS(expr, i, how) do { c.step(); const auto got_ = to_ref(expr); const auto want_ = E::at(d, i); if (!(got_ == want_)) { c.fail(what + ": " + how + " at position " + ref::show(i) + " is " + S(got_) + " instead of " + S(want_)); return; } } while (0)
#define SEQ_OK(cond, text) do { c.step(); if (!(cond)) { c.fail(what + ": " + text); return; } } while (0)

// E: HostOf or NetOf; walk: complete iteration up to this many elements
template <typename E, typename Seq>
void judge(mc::Ctx& c, const Seq& seq, const Def& d, const std::string& what, u128 walk, unsigned ends) {
    typedef typename Seq::const_iterator It;
    typedef typename Seq::difference_type D;
    typedef typename It::uint_type UI;
    const u128 all = ref::ones(int(sizeof(D)) * 8); // what the size type can hold
    const It b = seq.begin(), e = seq.end();
    SEQ_OK(b == seq.cbegin() && e == seq.cend() && seq.rbegin() == seq.crbegin() && seq.rend() == seq.crend(), "begin and cbegin or end and cend differ");
    const bool none = !d.whole && d.count == 0;
    SEQ_OK(seq.empty() == none, std::string("empty() is ") + B(seq.empty()));
    SEQ_OK((b == e) == none && (seq.rbegin() == seq.rend()) == none, "begin() == end() is wrong");
    SEQ_OK((U(seq.size()) & all) == (d.count & all), "size() is " + ref::show(U(seq.size())) + " instead of " + ref::show(d.count));
    if (none) return;
    SEQ_IS(seq.front(), u128(0), "front()");
    SEQ_IS(seq.back(), d.last(), "back()");
    SEQ_IS(*seq.rbegin(), d.last(), "*rbegin()");
    SEQ_IS(*b, u128(0), "*begin()");
    const std::vector<u128> ix = indices(d);
    for (size_t k = 0; k < ix.size(); ++k) {
        const u128 i = ix[k];
        SEQ_IS(seq[conv<D>::of(i)], i, "operator[]");
        SEQ_IS(seq.at(conv<D>::of(i)), i, "at()");
        SEQ_IS(b[conv<UI>::of(i)], i, "begin()[n]");
        SEQ_IS(*(b + conv<UI>::of(i)), i, "*(begin() + n)");
        if (i || d.whole || d.count == i) SEQ_IS(*(e - conv<UI>::of(d.last() - i + 1)), i, "*(end() - n)");
        SEQ_IS(seq.rbegin()[conv<UI>::of(d.last() - i)], i, "rbegin()[n]");
        SEQ_IS(*(seq.rbegin() + conv<UI>::of(d.last() - i)), i, "*(rbegin() + n)");
    }
    if (d.small(walk)) {
        const uint64_t n = uint64_t(d.count);
        It it = b;
        uint64_t i = 0;
        for (; it != e && i <= n; ++it, ++i) if (i < n) { SEQ_IS(*it, u128(i), "forward iteration"); SEQ_IS(*it.operator->(), u128(i), "operator->"); }
        SEQ_OK(i == n && it == e, "forward iteration has " + ref::show(u128(i)) + " elements instead of " + ref::show(d.count));
        it = e;
        for (i = n; i > 0; --i) { SEQ_OK(it != b, "backward iteration ends early"); --it; SEQ_IS(*it, u128(i - 1), "backward iteration"); }
        SEQ_OK(it == b, "backward iteration does not end at begin()");
        i = 0;
        typename Seq::const_reverse_iterator r = seq.rbegin();
        for (; r != seq.rend() && i <= n; ++r, ++i) if (i < n) { SEQ_IS(*r, u128(n - 1 - i), "reverse iteration"); SEQ_IS(*r.operator->(), u128(n - 1 - i), "reverse operator->"); }
        SEQ_OK(i == n, "reverse iteration has " + ref::show(u128(i)) + " elements instead of " + ref::show(d.count));
        r = seq.rend();
        for (i = 0; i < n; ++i) { --r; SEQ_IS(*r, u128(i), "reverse iteration backwards"); }
        SEQ_OK(r == seq.rbegin(), "reverse iteration backwards does not end at rbegin()");
        i = 0;
        for (auto&& x : seq) { if (i < n) SEQ_IS(x, u128(i), "range for"); if (++i > n) break; }
        SEQ_OK(i == n, "range for has another number of elements");
    } else {
        It it = b, jt = e;
        typename Seq::const_reverse_iterator r = seq.rbegin(), q = seq.rend();
        for (unsigned i = 0; i < ends && (d.whole || u128(i) < d.count); ++i) {
            SEQ_OK(it != e && r != seq.rend(), "iteration ends early");
            SEQ_IS(*it, u128(i), "forward iteration"); ++it;
            --jt; SEQ_IS(*jt, d.last() - i, "backward iteration");
            SEQ_IS(*r, d.last() - i, "reverse iteration"); r++;
            q--; SEQ_IS(*q, u128(i), "reverse iteration backwards");
        }
        // forwards over the end
        it = b + conv<UI>::of(d.last());
        SEQ_OK(it != e, "last element is end()");
        ++it;
        SEQ_OK(it == e, "the element after the last is not end()");
        r = seq.rbegin() + conv<UI>::of(d.last());
        SEQ_OK(r != seq.rend(), "last element is rend()");
        r++;
        SEQ_OK(r == seq.rend(), "the element after the last in reverse is not rend()");
    }
    if (!d.whole) {
        SEQ_OK((U(e.uint_diff(b)) & all) == (d.count & all), "uint_diff(end, begin) is " + ref::show(U(e.uint_diff(b))));
        // the size type counts modulo 2^width
        const bool fits = d.count <= ref::ones(62);
        if (fits) SEQ_OK(e - b == int64_t(d.count) && b - e == -int64_t(d.count), "end() - begin() is " + mc::inum(e - b) + ", begin() - end() is " + mc::inum(b - e));
        if (fits) SEQ_OK(seq.rend() - seq.rbegin() == int64_t(d.count), "rend() - rbegin() is " + mc::inum(seq.rend() - seq.rbegin()));
        SEQ_OK(b < e && b <= e && e > b && e >= b && !(e < b) && !(b > e) && b != e, "begin() and end() are not ordered");
    }
}

#endif // SEQ_HPP
