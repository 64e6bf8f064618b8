From 302ad3bcb7e4988ddc56d11e12aef9e303855cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:32 +0000
Subject: [PATCH 01/39] fix: reject prefix lengths whose digits overflow the
 accumulator

"1.2.3.0/18446744073709551640" wrapped around to /24.
---
 include/ipaddress/base-v4.hpp | 4 +++-
 include/ipaddress/base-v6.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/base-v4.hpp b/include/ipaddress/base-v4.hpp
index 3a225ee..7e91fb2 100644
--- a/include/ipaddress/base-v4.hpp
+++ b/include/ipaddress/base-v4.hpp
@@ -191,7 +191,9 @@ protected:
                 return std::make_tuple(ip_address_base<Ext>(), 0);
             }
             if (c >= '0' && c <= '9') {
-                prefixlen = prefixlen * 10 + (c - '0');
+                if (prefixlen <= base_max_prefixlen) {
+                    prefixlen = prefixlen * 10 + (c - '0');
+                }
             } else {
                 is_value = false;
                 break;
diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index 2f155cb..9e9d81f 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -253,7 +253,9 @@ protected:
                 return std::make_tuple(ip_address_base<Ext>(), 0);
             }
             if (c >= '0' && c <= '9') {
-                prefixlen = prefixlen * 10 + (c - '0');
+                if (prefixlen <= base_max_prefixlen) {
+                    prefixlen = prefixlen * 10 + (c - '0');
+                }
             } else {
                 code = error_code::invalid_netmask;
                 return std::make_tuple(ip_address_base<Ext>(), 0);
-- 
2.43.0


From 1e7e6130a03b42af3c593b20d4c2d86253daa0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:48 +0000
Subject: [PATCH 02/39] fix: do not truncate IPv6 text and scope ids at an
 embedded NUL

A NUL inside a group, inside an embedded IPv4 tail or inside a scope id
silently dropped the characters that followed it.
---
 include/ipaddress/base-v6.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index 9e9d81f..0aa6ba2 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -20,7 +20,7 @@ namespace IPADDRESS_NAMESPACE {
 namespace internal {
 
 IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_invalid_scope_id_symbol(char c) IPADDRESS_NOEXCEPT {
-    return c == '%' || c == '/' 
+    return c == '\0' || c == '%' || c == '/' 
 #ifndef IPADDRESS_SCOPE_ID_SUPPORT_SPACES
     || c == ' ' || (c >= '\t' && c <= '\r')
 #endif // IPADDRESS_SCOPE_ID_SUPPORT_SPACES
@@ -373,6 +373,10 @@ private:
                     : error_code::most_8_colons_permitted;
                 return empty_parts;
             }
+            if (c == '\0') {
+                error = error_code::part_has_invalid_symbol;
+                return empty_parts;
+            }
             if (c != ':') {
                 if (symbol > 15) {
                     error = error_code::part_is_more_4_chars;
-- 
2.43.0


From b2009767d541ad12cbb6b9b812510323992cbace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:48 +0000
Subject: [PATCH 03/39] fix: accept '::' followed by five groups and an
 embedded IPv4 address

"::2:3:4:5:6:1.2.3.4" is a valid textual form; only the form without
'::' is limited to six groups before the IPv4 part.
---
 include/ipaddress/base-v6.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index 0aa6ba2..e5728b6 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -423,7 +423,7 @@ private:
         }
 
         if (has_ipv4) {
-            if (parts_count + 1 >= _max_parts) {
+            if (parts_count + (has_double_colon ? 0 : 1) >= _max_parts) {
                 error = error_code::most_8_colons_permitted;
                 return empty_parts;
             }
-- 
2.43.0


From f9973412aef268ef348e82dd5ecc34c906a8dffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:48 +0000
Subject: [PATCH 04/39] fix: leave room for the longest IPv6 text with an
 embedded IPv4 part

Eight groups with an IPv4 tail take 45 characters before '%', so valid
network text and literals were cut short or refused as too long.
---
 include/ipaddress/base-v6.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index e5728b6..a6e5b5c 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -46,7 +46,7 @@ public:
 
     static constexpr ip_version base_version = ip_version::V6;
     static constexpr size_t base_size = 16;
-    static constexpr size_t base_max_string_len = 41 + IPADDRESS_IPV6_SCOPE_MAX_LENGTH;
+    static constexpr size_t base_max_string_len = 46 + IPADDRESS_IPV6_SCOPE_MAX_LENGTH;
     static constexpr size_t base_max_prefixlen = base_size * 8;
 
     /**
-- 
2.43.0


From 2b0efd96e2538fcf974960b213cf4dc4d4be8887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:03 +0000
Subject: [PATCH 05/39] fix: parse the whole address part of a network string

The address part was handed over as a NUL-terminated buffer: a NUL or any
text beyond the longest address was dropped together with the prefix, so
"192.168.100.2001" and "192.168.100.200xyz/8" were accepted.
---
 include/ipaddress/ip-network-base.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 04a8136..0cb0b91 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -1294,7 +1294,9 @@ private:
         }
 
         ip_network_base<Base> result;
-        result._network_address = ip_address_type::parse(address, code);
+        const char* address_begin = address;
+        uint32_t address_index = 0;
+        result._network_address = ip_address_type::ip_from_string(address_begin, address_begin + symbol, code, address_index);
         result._netmask = std::get<0>(netmask_result);
         result._prefixlen = std::get<1>(netmask_result);
 
-- 
2.43.0


From 04ed9f7657d81912819b9ddb11a3ac6361f8e07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:03 +0000
Subject: [PATCH 06/39] fix: treat the all-zero IPv4 netmask as /0

The documented meaning of an all-zero mask is /0, but it was computed
with a shift by -1 and came out as /32.
---
 include/ipaddress/base-v4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/base-v4.hpp b/include/ipaddress/base-v4.hpp
index 7e91fb2..59fd1ad 100644
--- a/include/ipaddress/base-v4.hpp
+++ b/include/ipaddress/base-v4.hpp
@@ -245,7 +245,7 @@ private:
         auto trailing_zeroes = count_righthand_zero_bits(ip, base_max_prefixlen);
         auto prefixlen = base_max_prefixlen - trailing_zeroes;
         auto leading_ones = trailing_zeroes != 32 ? (ip >> trailing_zeroes) : 0;
-        auto all_ones = (uint_type(1) << (prefixlen - 1) << 1) - uint_type(1); // NOLINT
+        auto all_ones = prefixlen != 0 ? (uint_type(1) << (prefixlen - 1) << 1) - uint_type(1) : uint_type(0); // NOLINT
         if (leading_ones != all_ones) {
             code = error_code::netmask_pattern_mixes_zeroes_and_ones;
             return 0;
-- 
2.43.0


From 1d7e73c4a0a9bb095b15244d40cdb69fa606ac5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:03 +0000
Subject: [PATCH 07/39] fix: compute the supernet mask without shifting by the
 full width

supernet(32) of an IPv4 /32 and supernet(128) of an IPv6 /128 shifted by
the width of the address and terminated with 'has host bits set'.
---
 include/ipaddress/ip-network-base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 0cb0b91..71bf70d 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -1127,7 +1127,7 @@ public:
         }
 
         const auto new_prefix = prefixlen() - prefixlen_diff;
-        const auto address = ip_address_type::from_uint(network_address().to_uint() & (netmask().to_uint() << prefixlen_diff));
+        const auto address = ip_address_type::from_uint(network_address().to_uint() & ip_address_type::ip_from_prefix(new_prefix).to_uint());
         return ip_network_base<Base>::from_address(address, new_prefix);
     }
 
-- 
2.43.0


From 5a51ba5c6f79302d60172fb8df5b15b5a3a09db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:37 +0000
Subject: [PATCH 08/39] fix: mark the end of sequences that run to the top of
 the address space

The end iterator of hosts() and subnets() wrapped to 0 without its carry
when the last element is the highest address of the version, so it compared
less than begin() and iteration by comparison or distance was wrong.
---
 include/ipaddress/ip-address-iterator.hpp | 4 ++--
 include/ipaddress/ip-network-iterator.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ipaddress/ip-address-iterator.hpp b/include/ipaddress/ip-address-iterator.hpp
index dcbfc15..e2a4357 100644
--- a/include/ipaddress/ip-address-iterator.hpp
+++ b/include/ipaddress/ip-address-iterator.hpp
@@ -891,7 +891,7 @@ public:
             const auto begin = value_type::from_uint(network_address.to_uint());
             const auto end = value_type::from_uint(broadcast_address.to_uint() + 1);
             _begin = const_iterator(begin);
-            _end = const_iterator(end);
+            _end = const_iterator(end, end < begin ? 1 : 0);
         } else if (prefixlen == max_prefixlen) {
             const auto begin = value_type::from_uint(network_address.to_uint());
             const auto end = value_type::from_uint(network_address.to_uint() + 1);
@@ -901,7 +901,7 @@ public:
             const auto begin = value_type::from_uint(network_address.to_uint() + 1);
             const auto end = value_type::from_uint(broadcast_address.to_uint() + (std::is_same<value_type, ipv6_address>::value ? 1 : 0));
             _begin = const_iterator(begin);
-            _end = const_iterator(end);
+            _end = const_iterator(end, end < begin ? 1 : 0);
         }
     }
 
diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index a40e03c..5f3680c 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -736,7 +736,7 @@ public:
         const auto end = ip_address_type::from_uint(end_uint + 1);
         const auto step = (hostmask.to_uint() >> prefixlen_diff) + 1;
         _begin = const_iterator(begin, step, new_prefixlen);
-        _end = const_iterator(end, step, new_prefixlen, begin == end ? 1 : 0);
+        _end = const_iterator(end, step, new_prefixlen, end <= begin ? 1 : 0);
         _size = (end_uint - begin_uint) / step + 1;
     }
 
-- 
2.43.0


From d97d8bb88f1756099db5159c204101086ce5f8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:37 +0000
Subject: [PATCH 09/39] fix: count address space wraps of iterators with a sign

Toggling the carry made a reverse end iterator that stepped below address 0
compare greater than its sequence, so ordering of reverse iterators was wrong.
---
 include/ipaddress/ip-address-iterator.hpp | 8 ++++----
 include/ipaddress/ip-network-iterator.hpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ipaddress/ip-address-iterator.hpp b/include/ipaddress/ip-address-iterator.hpp
index e2a4357..85ad37b 100644
--- a/include/ipaddress/ip-address-iterator.hpp
+++ b/include/ipaddress/ip-address-iterator.hpp
@@ -792,7 +792,7 @@ private:
         const auto old = result._offset;
         ++result._offset;
         if (result._offset < old) {
-            result._carry = 1 - result._carry;
+            ++result._carry;
         }
         result._current = value_type::from_uint(result._offset);
         return result;
@@ -803,7 +803,7 @@ private:
         const auto old = result._offset;
         --result._offset;
         if (result._offset > old) {
-            result._carry = 1 - result._carry;
+            --result._carry;
         }
         result._current = value_type::from_uint(result._offset);
         return result;
@@ -814,7 +814,7 @@ private:
             const auto old = _offset;
             _offset += n;
             if (_offset < old) {
-                _carry = 1 - _carry;
+                ++_carry;
             }
             _current = value_type::from_uint(_offset);
         }
@@ -825,7 +825,7 @@ private:
             const auto old = _offset;
             _offset -= n;
             if (_offset > old) {
-                _carry = 1 - _carry;
+                --_carry;
             }
             _current = value_type::from_uint(_offset);
         }
diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index 5f3680c..7a70ecb 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -406,7 +406,7 @@ private:
         const auto old = result._it._offset;
         result._it._offset += _step;
         if (result._it._offset < old) {
-            result._it._carry = 1 - result._it._carry;
+            ++result._it._carry;
         }
         result._it._current = ip_address_type::from_uint(result._it._offset);
         result._current = value_type::from_address(*result._it, result._prefixlen);
@@ -418,7 +418,7 @@ private:
         const auto old = result._it._offset;
         result._it._offset -= _step;
         if (result._it._offset > old) {
-        result._it._carry = 1 - result._it._carry;
+        --result._it._carry;
         }
         result._it._current = ip_address_type::from_uint(result._it._offset);
         result._current = value_type::from_address(*result._it, result._prefixlen);
-- 
2.43.0


From 6b3b8d22c2392c24173b41086f7705508b3ec1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:51 +0000
Subject: [PATCH 10/39] fix: move iterators backwards for negative distances

A negative difference_type was converted to a large unsigned step, which left
the iterator with a spurious carry (so it equalled no iterator of the sequence)
and, for IPv4 network iterators of any version, with a truncated step.
---
 include/ipaddress/ip-address-iterator.hpp | 12 ++++++++++--
 include/ipaddress/ip-any-iterator.hpp     | 12 ++++++++++--
 include/ipaddress/ip-network-iterator.hpp | 12 ++++++++++--
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/include/ipaddress/ip-address-iterator.hpp b/include/ipaddress/ip-address-iterator.hpp
index 85ad37b..12b04b7 100644
--- a/include/ipaddress/ip-address-iterator.hpp
+++ b/include/ipaddress/ip-address-iterator.hpp
@@ -555,7 +555,11 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_iterator& operator+=(difference_type n) IPADDRESS_NOEXCEPT {
-        add(n);
+        if (n < 0) {
+            sub(uint_type(0) - uint_type(n));
+        } else {
+            add(uint_type(n));
+        }
         return *this;
     }
 
@@ -581,7 +585,11 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_iterator& operator-=(difference_type n) IPADDRESS_NOEXCEPT {
-        sub(n);
+        if (n < 0) {
+            add(uint_type(0) - uint_type(n));
+        } else {
+            sub(uint_type(n));
+        }
         return *this;
     }
 
diff --git a/include/ipaddress/ip-any-iterator.hpp b/include/ipaddress/ip-any-iterator.hpp
index a4fa14b..acf6034 100644
--- a/include/ipaddress/ip-any-iterator.hpp
+++ b/include/ipaddress/ip-any-iterator.hpp
@@ -177,7 +177,11 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_any_iterator& operator+=(difference_type n) IPADDRESS_NOEXCEPT {
-        add(n);
+        if (n < 0) {
+            sub(uint128_t(0) - uint128_t(n));
+        } else {
+            add(uint128_t(n));
+        }
         return *this;
     }
 
@@ -203,7 +207,11 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_any_iterator& operator-=(difference_type n) IPADDRESS_NOEXCEPT {
-        sub(n);
+        if (n < 0) {
+            add(uint128_t(0) - uint128_t(n));
+        } else {
+            sub(uint128_t(n));
+        }
         return *this;
     }
 
diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index 7a70ecb..e7c689c 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -169,7 +169,11 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator& operator+=(difference_type n) IPADDRESS_NOEXCEPT {
-        add(n);
+        if (n < 0) {
+            sub(uint_type(0) - uint_type(n));
+        } else {
+            add(uint_type(n));
+        }
         return *this;
     }
 
@@ -195,7 +199,11 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator& operator-=(difference_type n) IPADDRESS_NOEXCEPT {
-        sub(n);
+        if (n < 0) {
+            add(uint_type(0) - uint_type(n));
+        } else {
+            sub(uint_type(n));
+        }
         return *this;
     }
 
-- 
2.43.0


From 0a3d0b5b21ede1734c5fd782afd1fd42022d6dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:13 +0000
Subject: [PATCH 11/39] fix: compute signed distances of iterators in elements

operator- of IPv4 iterators returned the modular difference for negative
distances, and operator- of network iterators returned the distance in
addresses instead of networks.
---
 include/ipaddress/ip-address-iterator.hpp | 2 +-
 include/ipaddress/ip-network-iterator.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/ip-address-iterator.hpp b/include/ipaddress/ip-address-iterator.hpp
index 12b04b7..09d1273 100644
--- a/include/ipaddress/ip-address-iterator.hpp
+++ b/include/ipaddress/ip-address-iterator.hpp
@@ -697,7 +697,7 @@ public:
      * @return The number of elements between this and the other iterator.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE difference_type operator-(const ip_address_iterator& other) const IPADDRESS_NOEXCEPT {
-        return difference_type(_offset - other._offset);
+        return *this < other ? -difference_type(other.uint_diff(*this)) : difference_type(uint_diff(other));
     }
 
     /**
diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index e7c689c..e7a73d5 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -311,7 +311,7 @@ public:
      * @return The number of elements between this and the other iterator.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE difference_type operator-(const ip_network_iterator& other) const IPADDRESS_NOEXCEPT {
-        return difference_type(_it - other._it);
+        return *this < other ? -difference_type(other.uint_diff(*this)) : difference_type(uint_diff(other));
     }
 
     /**
-- 
2.43.0


From c1f24964e80a2ac5be4c40262ffa3a9ffb44652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:46 +0000
Subject: [PATCH 12/39] fix: reject prefix length differences that overflow the
 new prefix length

subnets() added the difference to the prefix length before comparing it with
the maximum, so a huge difference wrapped and was accepted.
---
 include/ipaddress/ip-network-base.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 71bf70d..7ee9835 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -1038,13 +1038,12 @@ public:
             prefixlen_diff = new_prefixlen.value() - prefixlen();
         }
 
-        auto new_prefix = prefixlen() + prefixlen_diff;
-
-        if (new_prefix > ip_address_type::base_max_prefixlen) {
+        if (prefixlen_diff > ip_address_type::base_max_prefixlen - prefixlen()) {
             code = error_code::invalid_prefixlen_diff;
             return subnets_sequence<ip_network_base<Base>>();
         }
 
+        const auto new_prefix = prefixlen() + prefixlen_diff;
         return subnets_sequence<ip_network_base<Base>>(address, broadcast_address(), hostmask(), prefixlen_diff, new_prefix);
     }
 
-- 
2.43.0


From b586481f431f54a3e56b88818dfada9db0f455f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:46 +0000
Subject: [PATCH 13/39] fix: split the whole address space into subnets

Splitting 0.0.0.0/0 into /32 shifted a 32-bit value by 32, splitting any /0
into itself made a sequence with step 0, and distances over the whole address
space were 0; dividing by the step 0 of an empty sequence raised SIGFPE.
---
 include/ipaddress/ip-network-iterator.hpp | 40 ++++++++++++-----------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index e7a73d5..7c5b2d1 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -67,7 +67,11 @@ public:
      *         which can correctly represent all addresses using the integer number uint128_t
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE uint_type uint_diff(const ip_network_iterator& other) const IPADDRESS_NOEXCEPT {
-        return _it.uint_diff(other._it) / _step;
+        const auto diff = _it.uint_diff(other._it);
+        if (diff == 0 && _it._carry != other._it._carry) { // the whole address space
+            return _step == 0 ? uint_type(1) : (uint_type(0) - _step) / _step + 1;
+        }
+        return _step == 0 ? uint_type(0) : diff / _step;
     }
 
     /**
@@ -411,35 +415,33 @@ public:
 private:
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator base() const IPADDRESS_NOEXCEPT {
         auto result = *this;
-        const auto old = result._it._offset;
-        result._it._offset += _step;
-        if (result._it._offset < old) {
-            ++result._it._carry;
-        }
-        result._it._current = ip_address_type::from_uint(result._it._offset);
-        result._current = value_type::from_address(*result._it, result._prefixlen);
+        result.add(1);
         return result;
     }
 
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator reverse() const IPADDRESS_NOEXCEPT {
         auto result = *this;
-        const auto old = result._it._offset;
-        result._it._offset -= _step;
-        if (result._it._offset > old) {
-        --result._it._carry;
-        }
-        result._it._current = ip_address_type::from_uint(result._it._offset);
-        result._current = value_type::from_address(*result._it, result._prefixlen);
+        result.sub(1);
         return result;
     }
 
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void add(const uint_type& n) IPADDRESS_NOEXCEPT {
-        _it += _step * n;
+        const uint_type offset = _step * n;
+        if (n != 0 && offset == 0) { // the whole address space
+            ++_it._carry;
+        } else {
+            _it += offset;
+        }
         _current = value_type::from_address(*_it, _prefixlen);
     }
 
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void sub(const uint_type& n) IPADDRESS_NOEXCEPT {
-        _it -= _step * n;
+        const uint_type offset = _step * n;
+        if (n != 0 && offset == 0) { // the whole address space
+            --_it._carry;
+        } else {
+            _it -= offset;
+        }
         _current = value_type::from_address(*_it, _prefixlen);
     }
 
@@ -742,10 +744,10 @@ public:
         const auto end_uint = broadcast_address.to_uint();
         const auto begin = ip_address_type::from_uint(begin_uint);
         const auto end = ip_address_type::from_uint(end_uint + 1);
-        const auto step = (hostmask.to_uint() >> prefixlen_diff) + 1;
+        const auto step = new_prefixlen < ip_address_type::base_max_prefixlen ? difference_type((hostmask.to_uint() >> prefixlen_diff) + 1) : difference_type(1);
         _begin = const_iterator(begin, step, new_prefixlen);
         _end = const_iterator(end, step, new_prefixlen, end <= begin ? 1 : 0);
-        _size = (end_uint - begin_uint) / step + 1;
+        _size = step == 0 ? difference_type(1) : difference_type((end_uint - begin_uint) / step + 1);
     }
 
     /**
-- 
2.43.0


From 4bcef3734cfb1810a913221974812d14de75e5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:19 +0000
Subject: [PATCH 14/39] fix: reset the error code in subnets, address_exclude
 and ip_address::set_scope_id

A code left over from an earlier call was reported as the result of a
successful one, unlike in every other function taking an error_code.
---
 include/ipaddress/ip-any-address.hpp  | 9 +++++++++
 include/ipaddress/ip-network-base.hpp | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/include/ipaddress/ip-any-address.hpp b/include/ipaddress/ip-any-address.hpp
index 32179d6..0095307 100644
--- a/include/ipaddress/ip-any-address.hpp
+++ b/include/ipaddress/ip-any-address.hpp
@@ -854,6 +854,7 @@ public:
      * @endparblock
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -875,6 +876,7 @@ public:
      * @endparblock
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::wstring_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -893,6 +895,7 @@ public:
      * @remark If scope is disabled in settings (`IPADDRESS_IPV6_SCOPE_MAX_LENGTH == 0`) then this call will have no effect.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::u8string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -916,6 +919,7 @@ public:
      * @endparblock
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::u16string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -937,6 +941,7 @@ public:
      * @endparblock
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::u32string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -1087,6 +1092,7 @@ public:
      * @param[out] code An error_code object that will store the result of the operation.
      */
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::string& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -1099,6 +1105,7 @@ public:
      * @param[out] code An error_code object that will store the result of the operation.
      */
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::wstring& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -1111,6 +1118,7 @@ public:
      * @param[out] code An error_code object that will store the result of the operation.
      */
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::u16string& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -1123,6 +1131,7 @@ public:
      * @param[out] code An error_code object that will store the result of the operation.
      */
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::u32string& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 7ee9835..6dd0bc1 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -938,6 +938,8 @@ public:
      * @remark `exclude_network_sequence` uses lazy evaluation to iterate networks.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE exclude_network_sequence<ip_network_base<Base>> address_exclude(const ip_network_base& other, error_code& code) const IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
+
         auto lhs = Base::remove_scope_id(*this);
         auto rhs = Base::remove_scope_id(other);
 
@@ -1020,6 +1022,8 @@ public:
      * @remark `subnets_sequence` uses lazy evaluation to iterate over the subnets.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE subnets_sequence<ip_network_base<Base>> subnets(error_code& code, size_t prefixlen_diff = 1, optional<size_t> new_prefixlen = nullptr) const IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
+
         auto address = Base::remove_scope_id(network_address());
 
         if (prefixlen() == ip_address_type::base_max_prefixlen) {
-- 
2.43.0


From d1aca39a678e5671fd7f7c18ec4af93bd1436792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:19 +0000
Subject: [PATCH 15/39] fix: reject prefix lengths above the maximum in
 from_address

They were accepted, which made networks such as 0.0.0.0/33 and indexed past
the end of the IPv6 byte array or shifted a 32-bit value by more than 31.
---
 include/ipaddress/ip-network-base.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 6dd0bc1..73ad62c 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -457,6 +457,11 @@ public:
     ) IPADDRESS_NOEXCEPT {
         code = error_code::no_error;
 
+        if (prefixlen > ip_address_type::base_max_prefixlen) {
+            code = error_code::invalid_netmask;
+            return ip_network_base();
+        }
+
         const auto netmask = ip_address_type::ip_from_prefix(prefixlen); 
 
         ip_network_base result;
-- 
2.43.0


From 47d5c2058114f63817dc51b3e338935c999d3bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:31 +0000
Subject: [PATCH 16/39] fix: do not drop the all-zero single-address network
 from address_exclude

The end iterator is value-initialised, so a remainder of 0.0.0.0/32 or ::/128
compared equal to it and the sequence ended early or looked empty.
---
 include/ipaddress/ip-network-iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index 7c5b2d1..d742caf 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -585,7 +585,7 @@ public:
      * @return `true` if the iterators are equal, `false` otherwise.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool operator==(const ip_exclude_network_iterator& other) const IPADDRESS_NOEXCEPT {
-        return _current == other._current;
+        return _current == other._current && _other == other._other;
     }
 
     /**
-- 
2.43.0


From 10d128a58d8399c910f8d2c015bd9f3577826977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:55 +0000
Subject: [PATCH 17/39] fix: order IPv6 addresses by scope id only when their
 bytes are equal

Without the spaceship operator two addresses with different bytes could each
be less than the other when their scope ids differ.
---
 include/ipaddress/ipv6-address.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index ed081ff..6e9414c 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -811,7 +811,7 @@ protected:
         return lhs._data.bytes < rhs._data.bytes 
         
         #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
-            ? true : lhs._data.scope_id.compare(rhs._data.scope_id) < 0;
+            || (lhs._data.bytes == rhs._data.bytes && lhs._data.scope_id.compare(rhs._data.scope_id) < 0)
         #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
             ;
     }
-- 
2.43.0


From 0dcc5f48e29a2f4305986e8bebaee5badf668f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:55 +0000
Subject: [PATCH 18/39] fix: report only ::ffff:0:0/96 addresses as IPv4-mapped

Any address with the bytes ffff before its last 32 bits was reported, which also
misclassified such addresses as private or global by their last 32 bits.
---
 include/ipaddress/ipv6-address.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index 6e9414c..c96ef43 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -724,6 +724,11 @@ public:
         if (b[10] != 0xFF || b[11] != 0xFF) {
             return nullptr;
         } 
+        for (size_t i = 0; i < 10; ++i) {
+            if (b[i] != 0) {
+                return nullptr;
+            }
+        }
         ipv4_address::base_type ipv4_bytes = { b[12], b[13], b[14], b[15] };
         return ipv4_address(ipv4_bytes);
     }
-- 
2.43.0


From 0d8cd17165ee562bc7568b9de846a3b876cec586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:55 +0000
Subject: [PATCH 19/39] fix: keep a malformed UTF-8 sequence malformed

A valid trailing byte after an invalid one marked the sequence as correct.
---
 include/ipaddress/unicode.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/ipaddress/unicode.hpp b/include/ipaddress/unicode.hpp
index 2caa68e..fbf988c 100644
--- a/include/ipaddress/unicode.hpp
+++ b/include/ipaddress/unicode.hpp
@@ -114,7 +114,6 @@ struct utf8_reader {
             return 0;
         } 
         if ((uint8_t(*it) & 0b11000000) == 0b10000000) {
-            correct = true;
             return uint8_t(*it) & 0b00111111;
         } 
         correct = false;
-- 
2.43.0


From 5d9ecf76ee1807cb925a70601af669f5295a7626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:12 +0000
Subject: [PATCH 20/39] fix: reject overlong UTF-8 encodings of ASCII
 characters

Sequences such as C0 B1 were accepted as the character they encode.
---
 include/ipaddress/unicode.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ipaddress/unicode.hpp b/include/ipaddress/unicode.hpp
index fbf988c..399b552 100644
--- a/include/ipaddress/unicode.hpp
+++ b/include/ipaddress/unicode.hpp
@@ -78,6 +78,9 @@ struct utf8_reader {
                     correct = false;
                     break;
             }
+            if (symbol.length > 1 && symbol.value <= 127) { // overlong
+                correct = false;
+            }
         }
         ++it;
         if (!correct) {
-- 
2.43.0


From 75d182ee7e006c6a2ba5eacf54c797f73c1ece41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:51 +0000
Subject: [PATCH 21/39] fix: convert uint128_t values from 2^88 to 2^104 to
 double exactly

The conversion for large values ORs the low bits into the mantissa, which only
acts as a sticky bit from 2^104 on, but was used from 2^88 on.
---
 include/ipaddress/uint128.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/uint128.hpp b/include/ipaddress/uint128.hpp
index e4dfa96..3e27ca2 100644
--- a/include/ipaddress/uint128.hpp
+++ b/include/ipaddress/uint128.hpp
@@ -1461,7 +1461,7 @@ private:
             return double(value._lower);
         }     
 
-        if ((value._upper >> 24) == 0) {
+        if ((value._upper >> 40) == 0) {
             double lower = uint64_bits_to_double(two_pow_52_bits | ((value._lower << 12) >> 12)) - two_pow_52;
             double upper = uint64_bits_to_double(two_pow_104_bits | (uint64_t)(value >> 52)) - two_pow_104;
             return double(lower + upper);
-- 
2.43.0


From f669088b4573aa04c2bbd29d66d10a62ab9edb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:51 +0000
Subject: [PATCH 22/39] fix: shift uint128_t by exactly 128 bits to zero

It shifted a 64-bit word by 64, which is undefined and left the word unchanged.
---
 include/ipaddress/uint128.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/uint128.hpp b/include/ipaddress/uint128.hpp
index 3e27ca2..d1b8e5b 100644
--- a/include/ipaddress/uint128.hpp
+++ b/include/ipaddress/uint128.hpp
@@ -950,7 +950,7 @@ public:
         if (!shift) {
             return *this;
         }
-        if (shift >= 64 && shift <= 128) {
+        if (shift >= 64 && shift < 128) {
             return { _lower << (shift - 64), 0 };
         }
         if (shift < 64 && shift > 0) {
@@ -973,7 +973,7 @@ public:
         if (!shift) {
             return *this;
         }
-        if (shift >= 64 && shift <= 128) {
+        if (shift >= 64 && shift < 128) {
             return { 0, _upper >> (shift - 64) };
         }
         if (shift < 64 && shift > 0) {
-- 
2.43.0


From b5004617bac3310f86fb31b73d39ed3042da9f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:51 +0000
Subject: [PATCH 23/39] fix: return the last character from fixed_string::back

For a string shorter than its capacity it returned the padding.
---
 include/ipaddress/fixed-string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/fixed-string.hpp b/include/ipaddress/fixed-string.hpp
index 21d2020..1fe1e34 100644
--- a/include/ipaddress/fixed-string.hpp
+++ b/include/ipaddress/fixed-string.hpp
@@ -285,7 +285,7 @@ struct fixed_string {
      * @sa     front()
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference back() const IPADDRESS_NOEXCEPT {
-        return _data[N - 1];
+        return _data[length - 1];
     }
 
     /**
-- 
2.43.0


From 7e7bd7b3f4f9f054ca7fd97324551679b6deaea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:51 +0000
Subject: [PATCH 24/39] fix: do not report scope ids above the uint32 range as
 numeric

They were reported with the value reduced modulo 2^32.
---
 include/ipaddress/ipv6-address.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index c96ef43..f915205 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -246,8 +246,9 @@ private:
             const auto scope_id_size = _scope_id.size();
             for (size_t i = 0; i < scope_id_size; ++i) {
                 const auto c = _scope_id[i];
-                if (c >= '0' && c <= '9') {
-                    value = value * 10 + (c - '0');
+                const auto digit = uint32_t(c - '0');
+                if (c >= '0' && c <= '9' && (value < 429496729U || (value == 429496729U && digit <= 5))) {
+                    value = value * 10 + digit;
                 } else {
                     _has_value = false;
                     break;
-- 
2.43.0


From 1b5341f150b2774b6a7954f15643cf9206f61c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:56 +0000
Subject: [PATCH 25/39] fix: reject uint128_t strings without digits or out of
 range

from_string returned 0 for an empty string and reduced larger numbers
modulo 2^128 instead of reporting a failed parse.
---
 include/ipaddress/uint128.hpp | 36 ++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/include/ipaddress/uint128.hpp b/include/ipaddress/uint128.hpp
index d1b8e5b..af1cd10 100644
--- a/include/ipaddress/uint128.hpp
+++ b/include/ipaddress/uint128.hpp
@@ -1592,6 +1592,8 @@ private:
         error_code code = error_code::no_error;
         uint32_t error_symbol = 0;
         uint128_t result = 0;
+        const uint128_t max_value(0xFFFFFFFFFFFFFFFF, 0xFFFFFFFFFFFFFFFF);
+        auto has_digits = false;
         const T* it = begin;
         while (it < end) {
             const auto c = internal::next_char_or_error(it, end, code, error_symbol);
@@ -1602,7 +1604,15 @@ private:
             } else if (c < '0' || c > '9') {
                 return nullptr;
             }
-            result = result * 10 + (c - '0');
+            const auto next = result * 10 + (c - '0');
+            if (result > max_value / 10 || next < result) {
+                return nullptr;
+            }
+            result = next;
+            has_digits = true;
+        }
+        if (!has_digits) {
+            return nullptr;
         }
         return result;
     }
@@ -1612,6 +1622,8 @@ private:
         error_code code = error_code::no_error;
         uint32_t error_symbol = 0;
         uint128_t result = 0;
+        const uint128_t max_value(0xFFFFFFFFFFFFFFFF, 0xFFFFFFFFFFFFFFFF);
+        auto has_digits = false;
         const T* it = begin;
         while (it < end) {
             const auto c = internal::next_char_or_error(it, end, code, error_symbol);
@@ -1622,7 +1634,15 @@ private:
             } else if (c < '0' || c > '7') {
                 return nullptr;
             }
-            result = result * 8 + (c - '0');
+            const auto next = result * 8 + (c - '0');
+            if (result > max_value / 8 || next < result) {
+                return nullptr;
+            }
+            result = next;
+            has_digits = true;
+        }
+        if (!has_digits) {
+            return nullptr;
         }
         return result;
     }
@@ -1632,6 +1652,8 @@ private:
         error_code code = error_code::no_error;
         uint32_t error_symbol = 0;
         uint128_t result = 0;
+        const uint128_t max_value(0xFFFFFFFFFFFFFFFF, 0xFFFFFFFFFFFFFFFF);
+        auto has_digits = false;
         int digit = 0;
         const T* it = begin;
         while (it < end) {
@@ -1649,7 +1671,15 @@ private:
             } else {
                 return nullptr;
             }
-            result = result * 16 + digit;
+            const auto next = result * 16 + digit;
+            if (result > max_value / 16 || next < result) {
+                return nullptr;
+            }
+            result = next;
+            has_digits = true;
+        }
+        if (!has_digits) {
+            return nullptr;
         }
         return result;
     }
-- 
2.43.0


From ea4ed88b8b425d95757a552bfef06abd346c2896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:10 +0000
Subject: [PATCH 26/39] fix: include <limits> for std::numeric_limits

---
 include/ipaddress/config.hpp | 1 +
 src/ipaddress.ixx            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/ipaddress/config.hpp b/include/ipaddress/config.hpp
index f0e52a7..11c621d 100644
--- a/include/ipaddress/config.hpp
+++ b/include/ipaddress/config.hpp
@@ -27,6 +27,7 @@
 #  include <sstream>
 #  include <iomanip>
 #  include <cstring>
+#  include <limits>
 #  include <numeric>
 #  include <iterator>
 #  include <algorithm>
diff --git a/src/ipaddress.ixx b/src/ipaddress.ixx
index 05b074d..e815b4f 100644
--- a/src/ipaddress.ixx
+++ b/src/ipaddress.ixx
@@ -9,6 +9,7 @@ module;
 #include <sstream>
 #include <iomanip>
 #include <cstring>
+#include <limits>
 #include <numeric>
 #include <iterator>
 #include <algorithm>
-- 
2.43.0


From f5b76d73159207766325c89e06292a57f7411890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:07 +0000
Subject: [PATCH 27/39] fix: order version-agnostic iterators by version before
 C++20

operator< was false for iterators of different versions in both directions, so
they were neither equal nor ordered, unlike with three-way comparison.
---
 include/ipaddress/ip-any-iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/ip-any-iterator.hpp b/include/ipaddress/ip-any-iterator.hpp
index acf6034..7f638ce 100644
--- a/include/ipaddress/ip-any-iterator.hpp
+++ b/include/ipaddress/ip-any-iterator.hpp
@@ -382,7 +382,7 @@ public:
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool operator<(const ip_any_iterator& other) const IPADDRESS_NOEXCEPT {
         if (_version != other._version) {
-            return false;
+            return _version < other._version;
         }
         return _version == ip_version::V4 ? _iter.iter4 < other._iter.iter4 : _iter.iter6 < other._iter.iter6;
     }
-- 
2.43.0


From 7c2bfae9a352d10682e2a438c296136250a29bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:58 +0000
Subject: [PATCH 28/39] fix: let from_address default to the maximum prefix
 length

---
 include/ipaddress/ip-network-base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 73ad62c..4a90331 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -424,7 +424,7 @@ public:
      */
     IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_base from_address(
         const ip_address_type& address, 
-        size_t prefixlen = ip_address_type::max_prefixlen, 
+        size_t prefixlen = ip_address_type::base_max_prefixlen, 
         bool strict = true
     ) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         auto code = error_code::no_error;
@@ -452,7 +452,7 @@ public:
     static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_base from_address(
         const ip_address_type& address, 
         error_code& code, 
-        size_t prefixlen = ip_address_type::max_prefixlen, 
+        size_t prefixlen = ip_address_type::base_max_prefixlen, 
         bool strict = true
     ) IPADDRESS_NOEXCEPT {
         code = error_code::no_error;
-- 
2.43.0


From 6839a0a638ab11c2c863f9b13d878936b3b9dfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:10 +0000
Subject: [PATCH 29/39] fix: let empty byte arrays be ordered before C++20

---
 include/ipaddress/byte-array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/byte-array.hpp b/include/ipaddress/byte-array.hpp
index 2156e3b..00e33f4 100644
--- a/include/ipaddress/byte-array.hpp
+++ b/include/ipaddress/byte-array.hpp
@@ -446,9 +446,9 @@ IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool operator!=(c
     IPADDRESS_EXPORT template <size_t N>
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool operator<(const byte_array<N>& lhs, const byte_array<N>& rhs) IPADDRESS_NOEXCEPT {
         for (size_t i = 0; i < N; ++i) {
-            if (lhs._data[i] < rhs._data[i]) {
+            if (lhs[i] < rhs[i]) {
                 return true;
-            } else if (lhs._data[i] != rhs._data[i]) {
+            } else if (lhs[i] != rhs[i]) {
                 break;
             }
         }
-- 
2.43.0


From 3ddf5c94d61e9a2ce4b30ae380737323b0c63ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:33 +0000
Subject: [PATCH 30/39] fix: throw out_of_range for indexes beyond byte arrays
 and fixed strings, as documented

---
 include/ipaddress/byte-array.hpp   | 36 +++++++++++++++++++++++-------
 include/ipaddress/fixed-string.hpp | 16 ++++++++++---
 2 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/include/ipaddress/byte-array.hpp b/include/ipaddress/byte-array.hpp
index 00e33f4..a6a5832 100644
--- a/include/ipaddress/byte-array.hpp
+++ b/include/ipaddress/byte-array.hpp
@@ -153,7 +153,7 @@ struct byte_array {
      * @return A reference to the element at the specified index.
      * @throw std::out_of_range When going beyond the bounds of the array.
      */
-    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE reference operator[](size_t n) IPADDRESS_NOEXCEPT {
+    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE reference operator[](size_t n) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         return at(n);
     }
 
@@ -164,7 +164,7 @@ struct byte_array {
      * @return A const reference to the element at the specified index.
      * @throw std::out_of_range When going beyond the bounds of the array.
      */
-    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference operator[](size_t n) const IPADDRESS_NOEXCEPT {
+    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference operator[](size_t n) const IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         return at(n);
     }
 
@@ -175,7 +175,12 @@ struct byte_array {
      * @return A reference to the element at the specified index.
      * @throw std::out_of_range When going beyond the bounds of the array.
      */
-    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE reference at(size_t n) IPADDRESS_NOEXCEPT {
+    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE reference at(size_t n) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
+    #ifndef IPADDRESS_NO_EXCEPTIONS
+        if (n >= N) {
+            throw std::out_of_range("index out of range");
+        }
+    #endif
         return _data[n];
     }
 
@@ -186,7 +191,12 @@ struct byte_array {
      * @return A const reference to the element at the specified index.
      * @throw std::out_of_range When going beyond the bounds of the array.
      */
-    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference at(size_t n) const IPADDRESS_NOEXCEPT {
+    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference at(size_t n) const IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
+    #ifndef IPADDRESS_NO_EXCEPTIONS
+        if (n >= N) {
+            throw std::out_of_range("index out of range");
+        }
+    #endif
         return _data[n];
     }
 
@@ -319,19 +329,29 @@ public:
         return 0;
     }
 
-    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE reference operator[](size_t n) IPADDRESS_NOEXCEPT {
+    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE reference operator[](size_t n) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         return at(n);
     }
 
-    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference operator[](size_t n) const IPADDRESS_NOEXCEPT {
+    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference operator[](size_t n) const IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         return at(n);
     }
 
-    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE reference at(size_t /*n*/) IPADDRESS_NOEXCEPT {
+    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE reference at(size_t n) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
+    #ifndef IPADDRESS_NO_EXCEPTIONS
+        if (n >= size()) {
+            throw std::out_of_range("index out of range");
+        }
+    #endif
         return *data();
     }
 
-    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference at(size_t /*n*/) const IPADDRESS_NOEXCEPT {
+    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference at(size_t n) const IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
+    #ifndef IPADDRESS_NO_EXCEPTIONS
+        if (n >= size()) {
+            throw std::out_of_range("index out of range");
+        }
+    #endif
         return *data();
     }
 
diff --git a/include/ipaddress/fixed-string.hpp b/include/ipaddress/fixed-string.hpp
index 1fe1e34..49d87e1 100644
--- a/include/ipaddress/fixed-string.hpp
+++ b/include/ipaddress/fixed-string.hpp
@@ -243,7 +243,7 @@ struct fixed_string {
      * @throw std::out_of_range When going beyond the bounds of the character array.
      * @sa at(size_t) const
      */
-    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference operator[](size_t n) const IPADDRESS_NOEXCEPT {
+    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference operator[](size_t n) const IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         return at(n);
     }
 
@@ -258,7 +258,12 @@ struct fixed_string {
      * @throw std::out_of_range When going beyond the bounds of the character array.
      * @sa operator[](size_t) const
      */
-    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference at(size_t n) const IPADDRESS_NOEXCEPT {
+    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference at(size_t n) const IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
+    #ifndef IPADDRESS_NO_EXCEPTIONS
+        if (n >= N) {
+            throw std::out_of_range("index out of range");
+        }
+    #endif
         return _data[n];
     }
 
@@ -475,7 +480,12 @@ struct fixed_string<0> {
         return at(n);
     }
 
-    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference at(size_t /*n*/) const IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
+    IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference at(size_t n) const IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
+    #ifndef IPADDRESS_NO_EXCEPTIONS
+        if (n >= size()) {
+            throw std::out_of_range("index out of range");
+        }
+    #endif
         return front();
     }
 
-- 
2.43.0


From 49218497cee61882b51dc8766cb83eb7faf0f08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:46 +0000
Subject: [PATCH 31/39] fix: keep the end of an IPv6 address without characters
 before '%' inside the text

---
 include/ipaddress/base-v6.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index a6e5b5c..f449e4f 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -306,6 +306,7 @@ private:
         auto it = begin;
         auto scope = false;
         ip_and_scope<Iter> result{};
+        result.end_ip = begin;
         while (it < end) {
             const auto c = internal::next_char_or_error(it, end, error, error_value);
             if (error != error_code::no_error) {
-- 
2.43.0


From d1cac7af35ba037847e124e4ff3268f3c790ff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:15 +0000
Subject: [PATCH 32/39] fix: compute integer values of addresses independently
 of the host byte order

---
 include/ipaddress/base-v4.hpp      | 18 ++++++++----------
 include/ipaddress/ipv6-address.hpp | 16 ++--------------
 2 files changed, 10 insertions(+), 24 deletions(-)

diff --git a/include/ipaddress/base-v4.hpp b/include/ipaddress/base-v4.hpp
index 59fd1ad..c69dbf9 100644
--- a/include/ipaddress/base-v4.hpp
+++ b/include/ipaddress/base-v4.hpp
@@ -131,12 +131,11 @@ protected:
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_base<Ext> ip_from_uint32(uint_type ip) IPADDRESS_NOEXCEPT {
-        ip = is_little_endian() ? swap_bytes(ip) : ip;
         return ip_address_base<Ext>({
-            uint8_t(ip & 0xFF),
-            uint8_t((ip >> 8) & 0xFF),
+            uint8_t((ip >> 24) & 0xFF),
             uint8_t((ip >> 16) & 0xFF),
-            uint8_t((ip >> 24) & 0xFF) });
+            uint8_t((ip >> 8) & 0xFF),
+            uint8_t(ip & 0xFF) });
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_base<Ext> ip_from_prefix(size_t prefixlen) {
@@ -146,12 +145,11 @@ protected:
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE uint_type ip_to_uint32(const base_type& bytes) IPADDRESS_NOEXCEPT {
-        const auto ip = 
-            (uint32_t(bytes[3]) << 24) | 
-            (uint32_t(bytes[2]) << 16) | 
-            (uint32_t(bytes[1]) << 8) | 
-            (uint32_t(bytes[0]));
-        return is_little_endian() ? swap_bytes(ip) : ip;
+        return
+            (uint32_t(bytes[0]) << 24) | 
+            (uint32_t(bytes[1]) << 16) | 
+            (uint32_t(bytes[2]) << 8) | 
+            (uint32_t(bytes[3]));
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE size_t ip_to_chars(const base_type& bytes, format /*fmt*/, char (&result)[base_max_string_len + 1]) IPADDRESS_NOEXCEPT {
diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index f915205..48ef4d9 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -668,13 +668,7 @@ public:
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_base<ipv6_address_base> from_uint(uint_type ip) IPADDRESS_NOEXCEPT {
         ip_address_base<ipv6_address_base> result;
         auto& bytes = result._data.bytes;
-        int shift = 0;
-        int inc = 8;
-        if (is_little_endian()) {
-            shift = 56;
-            inc = -8;
-        }
-        for (int i = 0, s = shift; i < 8; ++i, s += inc) {
+        for (int i = 0, s = 56; i < 8; ++i, s -= 8) {
             bytes[i] = uint8_t(ip.upper() >> s);
             bytes[i + 8] = uint8_t(ip.lower() >> s);
         }
@@ -691,13 +685,7 @@ public:
         const auto& bytes = _data.bytes;
         uint64_t upper = 0;
         uint64_t lower = 0;
-        int shift = 0;
-        int inc = 8;
-        if (is_little_endian()) {
-            shift = 56;
-            inc = -8;
-        }
-        for (int i = 0, s = shift; i < 8; ++i, s += inc) {
+        for (int i = 0, s = 56; i < 8; ++i, s -= 8) {
             upper |= uint64_t(bytes[i]) << s;
             lower |= uint64_t(bytes[i + 8]) << s;
         }
-- 
2.43.0


From 1c34e376ca7cabb3bb08c3e40c9b091770097466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:28 +0000
Subject: [PATCH 33/39] fix: format uint128_t values independently of the
 global locale

---
 include/ipaddress/config.hpp  | 1 +
 include/ipaddress/uint128.hpp | 1 +
 src/ipaddress.ixx             | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/ipaddress/config.hpp b/include/ipaddress/config.hpp
index 11c621d..431facb 100644
--- a/include/ipaddress/config.hpp
+++ b/include/ipaddress/config.hpp
@@ -28,6 +28,7 @@
 #  include <iomanip>
 #  include <cstring>
 #  include <limits>
+#  include <locale>
 #  include <numeric>
 #  include <iterator>
 #  include <algorithm>
diff --git a/include/ipaddress/uint128.hpp b/include/ipaddress/uint128.hpp
index af1cd10..851ac9b 100644
--- a/include/ipaddress/uint128.hpp
+++ b/include/ipaddress/uint128.hpp
@@ -325,6 +325,7 @@ public:
     IPADDRESS_NODISCARD IPADDRESS_FORCE_INLINE std::string to_string(format fmt = format::decimal) const {
         if (_upper == 0) {
             std::ostringstream ss;
+            ss.imbue(std::locale::classic());
             switch (fmt) {
                 case format::octal:
                     ss << std::oct;
diff --git a/src/ipaddress.ixx b/src/ipaddress.ixx
index e815b4f..b9b11b9 100644
--- a/src/ipaddress.ixx
+++ b/src/ipaddress.ixx
@@ -10,6 +10,7 @@ module;
 #include <iomanip>
 #include <cstring>
 #include <limits>
+#include <locale>
 #include <numeric>
 #include <iterator>
 #include <algorithm>
-- 
2.43.0


From 7989a3f349ad0943a556848574da690f77809673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:41 +0000
Subject: [PATCH 34/39] fix: format error messages independently of the global
 locale

---
 include/ipaddress/errors.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ipaddress/errors.hpp b/include/ipaddress/errors.hpp
index e5e3bdc..fd62929 100644
--- a/include/ipaddress/errors.hpp
+++ b/include/ipaddress/errors.hpp
@@ -161,6 +161,7 @@ private:
     template <typename... Args>
     static std::string concatenate(const Args&... args) {
         std::ostringstream ss;
+        ss.imbue(std::locale::classic());
         concat(ss, args...);
         return ss.str();
     }
-- 
2.43.0


From e97fefc13379593844c3a6b26706d6a56e7c5d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:03 +0000
Subject: [PATCH 35/39] fix: report failed allocations while composing texts
 and messages instead of truncating them

---
 include/ipaddress/errors.hpp  | 1 +
 include/ipaddress/uint128.hpp | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/include/ipaddress/errors.hpp b/include/ipaddress/errors.hpp
index fd62929..af12269 100644
--- a/include/ipaddress/errors.hpp
+++ b/include/ipaddress/errors.hpp
@@ -162,6 +162,7 @@ private:
     static std::string concatenate(const Args&... args) {
         std::ostringstream ss;
         ss.imbue(std::locale::classic());
+        ss.exceptions(std::ios_base::badbit);
         concat(ss, args...);
         return ss.str();
     }
diff --git a/include/ipaddress/uint128.hpp b/include/ipaddress/uint128.hpp
index 851ac9b..24593cb 100644
--- a/include/ipaddress/uint128.hpp
+++ b/include/ipaddress/uint128.hpp
@@ -326,6 +326,7 @@ public:
         if (_upper == 0) {
             std::ostringstream ss;
             ss.imbue(std::locale::classic());
+            ss.exceptions(std::ios_base::badbit);
             switch (fmt) {
                 case format::octal:
                     ss << std::oct;
@@ -1517,6 +1518,7 @@ private:
 
     IPADDRESS_NODISCARD static IPADDRESS_FORCE_INLINE std::string uint128_to_dec_str(uint128_t value) {
         std::ostringstream ss;
+        ss.exceptions(std::ios_base::badbit);
 
         do {
             const auto q = value / 10;
@@ -1534,6 +1536,7 @@ private:
 
     IPADDRESS_NODISCARD static IPADDRESS_FORCE_INLINE std::string uint128_to_oct_str(uint128_t value) {
         std::ostringstream ss;
+        ss.exceptions(std::ios_base::badbit);
 
         do {
             const auto q = value / 8;
@@ -1553,6 +1556,7 @@ private:
         constexpr char digits[] = "0123456789abcdef";
 
         std::ostringstream ss;
+        ss.exceptions(std::ios_base::badbit);
         do {
             const auto q = value / 16;
             const auto r = value - q * 16;
-- 
2.43.0


From 0ffc72054adf0a38e4abdaf91b031dd21264bd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:26 +0000
Subject: [PATCH 36/39] fix: continue the list of big-endian architectures over
 all its lines

---
 include/ipaddress/endian.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/endian.hpp b/include/ipaddress/endian.hpp
index 12b0735..6137883 100644
--- a/include/ipaddress/endian.hpp
+++ b/include/ipaddress/endian.hpp
@@ -72,7 +72,7 @@
         defined(__hpux) || \
         defined(__powerpc__) || \
         defined(__ppc__) || \
-        defined(__s390__)
+        defined(__s390__) || \
         defined(__sparc__) || \
         defined(__sparc) || \
         defined(_MIPSEB) || \
-- 
2.43.0


From 72f46b475b545aee4a04f679a7e2b025d465595d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:05 +0000
Subject: [PATCH 37/39] fix: move IPv4 iterators by any integer type, as
 standard algorithms do, without ambiguity

---
 include/ipaddress/ip-address-iterator.hpp | 36 +++++++++++++++--------
 include/ipaddress/ip-network-iterator.hpp | 18 ++++++++----
 2 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/include/ipaddress/ip-address-iterator.hpp b/include/ipaddress/ip-address-iterator.hpp
index 09d1273..bf98e7c 100644
--- a/include/ipaddress/ip-address-iterator.hpp
+++ b/include/ipaddress/ip-address-iterator.hpp
@@ -116,7 +116,8 @@ public:
      * @param[in] n The index of the element.
      * @return The element at the specified index.
      */
-    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE value_type operator[](const uint_type& n) const IPADDRESS_NOEXCEPT {
+    template <typename Uint, typename std::enable_if<std::is_same<Uint, uint_type>::value, bool>::type = true> // other integers are differences
+    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE value_type operator[](const Uint& n) const IPADDRESS_NOEXCEPT {
         return *(_it - n);
     }
 
@@ -183,7 +184,8 @@ public:
      * @param[in] n The number of positions to move the iterator forward.
      * @return A reference to the updated iterator.
      */
-    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_reverse_iterator& operator+=(const uint_type& n) IPADDRESS_NOEXCEPT {
+    template <typename Uint, typename std::enable_if<std::is_same<Uint, uint_type>::value, bool>::type = true> // other integers are differences
+    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_reverse_iterator& operator+=(const Uint& n) IPADDRESS_NOEXCEPT {
         _it -= n;
         return *this;
     }
@@ -209,7 +211,8 @@ public:
      * @param[in] n The number of positions to move the iterator backward.
      * @return A reference to the updated iterator.
      */
-    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_reverse_iterator& operator-=(const uint_type& n) IPADDRESS_NOEXCEPT {
+    template <typename Uint, typename std::enable_if<std::is_same<Uint, uint_type>::value, bool>::type = true> // other integers are differences
+    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_reverse_iterator& operator-=(const Uint& n) IPADDRESS_NOEXCEPT {
         _it += n;
         return *this;
     }
@@ -236,7 +239,8 @@ public:
      * @param[in] n The number of positions to move ahead.
      * @return A new iterator that is \a n positions ahead.
      */
-    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_reverse_iterator operator+(const uint_type& n) const IPADDRESS_NOEXCEPT {
+    template <typename Uint, typename std::enable_if<std::is_same<Uint, uint_type>::value, bool>::type = true> // other integers are differences
+    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_reverse_iterator operator+(const Uint& n) const IPADDRESS_NOEXCEPT {
         auto tmp = *this;
         tmp += n;
         return tmp;
@@ -264,7 +268,8 @@ public:
      * @param[in] it The iterator to move ahead from.
      * @return A new iterator that is \a n positions ahead of it.
      */
-    IPADDRESS_NODISCARD friend IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_reverse_iterator operator+(const uint_type& n, const ip_reverse_iterator& it) IPADDRESS_NOEXCEPT {
+    template <typename Uint, typename std::enable_if<std::is_same<Uint, uint_type>::value, bool>::type = true> // other integers are differences
+    IPADDRESS_NODISCARD friend IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_reverse_iterator operator+(const Uint& n, const ip_reverse_iterator& it) IPADDRESS_NOEXCEPT {
         return it + n;
     }
 
@@ -290,7 +295,8 @@ public:
      * @param[in] n The number of positions to move behind.
      * @return A new iterator that is \a n positions behind.
      */
-    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_reverse_iterator operator-(const uint_type& n) const IPADDRESS_NOEXCEPT {
+    template <typename Uint, typename std::enable_if<std::is_same<Uint, uint_type>::value, bool>::type = true> // other integers are differences
+    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_reverse_iterator operator-(const Uint& n) const IPADDRESS_NOEXCEPT {
         auto tmp = *this;
         tmp -= n;
         return tmp;
@@ -492,7 +498,8 @@ public:
      * @param[in] n The index of the element.
      * @return The element at the specified index.
      */
-    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE value_type operator[](const uint_type& n) const IPADDRESS_NOEXCEPT {
+    template <typename Uint, typename std::enable_if<std::is_same<Uint, uint_type>::value, bool>::type = true> // other integers are differences
+    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE value_type operator[](const Uint& n) const IPADDRESS_NOEXCEPT {
         return value_type::from_uint(_offset + n);
     }
 
@@ -571,7 +578,8 @@ public:
      * @param[in] n The number to add.
      * @return A reference to the updated iterator.
      */
-    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_iterator& operator+=(const uint_type& n) IPADDRESS_NOEXCEPT {
+    template <typename Uint, typename std::enable_if<std::is_same<Uint, uint_type>::value, bool>::type = true> // other integers are differences
+    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_iterator& operator+=(const Uint& n) IPADDRESS_NOEXCEPT {
         add(n);
         return *this;
     }
@@ -601,7 +609,8 @@ public:
      * @param[in] n The number to subtract.
      * @return A reference to the updated iterator.
      */
-    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_iterator& operator-=(const uint_type& n) IPADDRESS_NOEXCEPT {
+    template <typename Uint, typename std::enable_if<std::is_same<Uint, uint_type>::value, bool>::type = true> // other integers are differences
+    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_iterator& operator-=(const Uint& n) IPADDRESS_NOEXCEPT {
         sub(n);
         return *this;
     }
@@ -628,7 +637,8 @@ public:
      * @param[in] n The number to add.
      * @return A new iterator that is the sum of the iterator and the number.
      */
-    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_iterator operator+(const uint_type& n) const IPADDRESS_NOEXCEPT {
+    template <typename Uint, typename std::enable_if<std::is_same<Uint, uint_type>::value, bool>::type = true> // other integers are differences
+    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_iterator operator+(const Uint& n) const IPADDRESS_NOEXCEPT {
         auto tmp = *this;
         tmp += n;
         return tmp;
@@ -656,7 +666,8 @@ public:
      * @param[in] it The iterator to add the number to.
      * @return A new iterator that is the sum of the number and the iterator.
      */
-    IPADDRESS_NODISCARD friend IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_iterator operator+(const uint_type& n, const ip_address_iterator& it) IPADDRESS_NOEXCEPT {
+    template <typename Uint, typename std::enable_if<std::is_same<Uint, uint_type>::value, bool>::type = true> // other integers are differences
+    IPADDRESS_NODISCARD friend IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_iterator operator+(const Uint& n, const ip_address_iterator& it) IPADDRESS_NOEXCEPT {
         return it + n;
     }
 
@@ -682,7 +693,8 @@ public:
      * @param[in] n The number to subtract.
      * @return A new iterator that is the difference of the iterator and the number.
      */
-    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_iterator operator-(const uint_type& n) const IPADDRESS_NOEXCEPT {
+    template <typename Uint, typename std::enable_if<std::is_same<Uint, uint_type>::value, bool>::type = true> // other integers are differences
+    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_iterator operator-(const Uint& n) const IPADDRESS_NOEXCEPT {
         auto tmp = *this;
         tmp -= n;
         return tmp;
diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index d742caf..e54821a 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -109,7 +109,8 @@ public:
      * @param[in] n The index of the element.
      * @return The element at the specified index.
      */
-    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE value_type operator[](const uint_type& n) const IPADDRESS_NOEXCEPT {
+    template <typename Uint, typename std::enable_if<std::is_same<Uint, uint_type>::value, bool>::type = true> // other integers are differences
+    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE value_type operator[](const Uint& n) const IPADDRESS_NOEXCEPT {
         const auto address = _it + _step * n;
         return value_type::from_address(*address, _prefixlen);
     }
@@ -189,7 +190,8 @@ public:
      * @param[in] n The number to add.
      * @return A reference to the updated iterator.
      */
-    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator& operator+=(const uint_type& n) IPADDRESS_NOEXCEPT {
+    template <typename Uint, typename std::enable_if<std::is_same<Uint, uint_type>::value, bool>::type = true> // other integers are differences
+    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator& operator+=(const Uint& n) IPADDRESS_NOEXCEPT {
         add(n);
         return *this;
     }
@@ -219,7 +221,8 @@ public:
      * @param[in] n The number to subtract.
      * @return A reference to the updated iterator.
      */
-    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator& operator-=(const uint_type& n) IPADDRESS_NOEXCEPT {
+    template <typename Uint, typename std::enable_if<std::is_same<Uint, uint_type>::value, bool>::type = true> // other integers are differences
+    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator& operator-=(const Uint& n) IPADDRESS_NOEXCEPT {
         sub(n);
         return *this;
     }
@@ -246,7 +249,8 @@ public:
      * @param[in] n The number to add.
      * @return A new iterator that is the sum of the iterator and the number.
      */
-    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator operator+(const uint_type& n) const IPADDRESS_NOEXCEPT {
+    template <typename Uint, typename std::enable_if<std::is_same<Uint, uint_type>::value, bool>::type = true> // other integers are differences
+    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator operator+(const Uint& n) const IPADDRESS_NOEXCEPT {
         auto tmp = *this;
         tmp += n;
         return tmp;
@@ -274,7 +278,8 @@ public:
      * @param[in] it The iterator to add the number to.
      * @return A new iterator that is the sum of the number and the iterator.
      */
-    IPADDRESS_NODISCARD friend IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator operator+(const uint_type& n, const ip_network_iterator& it) IPADDRESS_NOEXCEPT {
+    template <typename Uint, typename std::enable_if<std::is_same<Uint, uint_type>::value, bool>::type = true> // other integers are differences
+    IPADDRESS_NODISCARD friend IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator operator+(const Uint& n, const ip_network_iterator& it) IPADDRESS_NOEXCEPT {
         return it + n;
     }
 
@@ -300,7 +305,8 @@ public:
      * @param[in] n The number to subtract.
      * @return A new iterator that is the difference of the iterator and the number.
      */
-    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator operator-(const uint_type& n) const IPADDRESS_NOEXCEPT {
+    template <typename Uint, typename std::enable_if<std::is_same<Uint, uint_type>::value, bool>::type = true> // other integers are differences
+    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator operator-(const Uint& n) const IPADDRESS_NOEXCEPT {
         auto tmp = *this;
         tmp -= n;
         return tmp;
-- 
2.43.0


From 4b730ec4ea55bedde9c37c5d5cfd18578c327fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:05 +0000
Subject: [PATCH 38/39] fix: measure and cross the distance of 2^32 subnets
 between IPv4 positions

---
 include/ipaddress/ip-any-iterator.hpp     | 10 ++++--
 include/ipaddress/ip-network-iterator.hpp | 38 ++++++++++++++---------
 2 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/include/ipaddress/ip-any-iterator.hpp b/include/ipaddress/ip-any-iterator.hpp
index 7f638ce..a53ed61 100644
--- a/include/ipaddress/ip-any-iterator.hpp
+++ b/include/ipaddress/ip-any-iterator.hpp
@@ -84,7 +84,11 @@ public:
         if (_version != other._version) {
             return 0;
         }
-        return _version == ip_version::V4 ? uint128_t(_iter.iter4.uint_diff(other._iter.iter4)) : _iter.iter6.uint_diff(other._iter.iter6);
+        if (_version == ip_version::V4) {
+            const auto diff = _iter.iter4 - other._iter.iter4;
+            return diff < 0 ? uint128_t(_iter.iter4.uint_diff(other._iter.iter4)) : uint128_t(uint64_t(diff));
+        }
+        return _iter.iter6.uint_diff(other._iter.iter6);
     }
 
     /**
@@ -436,7 +440,7 @@ private:
 
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void add(const uint128_t& n) IPADDRESS_NOEXCEPT {
         if (_version == ip_version::V4) {
-            _iter.iter4 += uint32_t(n);
+            _iter.iter4 += difference_type(n);
             _current = *_iter.iter4;
         } else {
             _iter.iter6 += n;
@@ -446,7 +450,7 @@ private:
 
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void sub(const uint128_t& n) IPADDRESS_NOEXCEPT {
         if (_version == ip_version::V4) {
-            _iter.iter4 -= uint32_t(n);
+            _iter.iter4 -= difference_type(n);
             _current = *_iter.iter4;
         } else {
             _iter.iter6 -= n;
diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index e54821a..b8d2d1e 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -123,7 +123,7 @@ public:
      * @return A reference to the incremented iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator& operator++() IPADDRESS_NOEXCEPT {
-        add(1);
+        add(1, true);
         return *this;
     }
 
@@ -148,7 +148,7 @@ public:
      * @return A reference to the decremented iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator& operator--() IPADDRESS_NOEXCEPT {
-        sub(1);
+        sub(1, true);
         return *this;
     }
 
@@ -175,9 +175,9 @@ public:
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator& operator+=(difference_type n) IPADDRESS_NOEXCEPT {
         if (n < 0) {
-            sub(uint_type(0) - uint_type(n));
+            sub(uint_type(0) - uint_type(n), true);
         } else {
-            add(uint_type(n));
+            add(uint_type(n), n != 0);
         }
         return *this;
     }
@@ -192,7 +192,7 @@ public:
      */
     template <typename Uint, typename std::enable_if<std::is_same<Uint, uint_type>::value, bool>::type = true> // other integers are differences
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator& operator+=(const Uint& n) IPADDRESS_NOEXCEPT {
-        add(n);
+        add(n, n != 0);
         return *this;
     }
 
@@ -206,9 +206,9 @@ public:
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator& operator-=(difference_type n) IPADDRESS_NOEXCEPT {
         if (n < 0) {
-            add(uint_type(0) - uint_type(n));
+            add(uint_type(0) - uint_type(n), true);
         } else {
-            sub(uint_type(n));
+            sub(uint_type(n), n != 0);
         }
         return *this;
     }
@@ -223,7 +223,7 @@ public:
      */
     template <typename Uint, typename std::enable_if<std::is_same<Uint, uint_type>::value, bool>::type = true> // other integers are differences
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator& operator-=(const Uint& n) IPADDRESS_NOEXCEPT {
-        sub(n);
+        sub(n, n != 0);
         return *this;
     }
 
@@ -321,7 +321,7 @@ public:
      * @return The number of elements between this and the other iterator.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE difference_type operator-(const ip_network_iterator& other) const IPADDRESS_NOEXCEPT {
-        return *this < other ? -difference_type(other.uint_diff(*this)) : difference_type(uint_diff(other));
+        return *this < other ? -other.distance_from(*this) : distance_from(other);
     }
 
     /**
@@ -421,19 +421,27 @@ public:
 private:
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator base() const IPADDRESS_NOEXCEPT {
         auto result = *this;
-        result.add(1);
+        result.add(1, true);
         return result;
     }
 
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator reverse() const IPADDRESS_NOEXCEPT {
         auto result = *this;
-        result.sub(1);
+        result.sub(1, true);
         return result;
     }
 
-    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void add(const uint_type& n) IPADDRESS_NOEXCEPT {
+    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE difference_type distance_from(const ip_network_iterator& other) const IPADDRESS_NOEXCEPT {
+        const auto diff = uint_diff(other);
+        if (diff == 0 && *this != other) { // one more than an uint_type can hold
+            return difference_type(~uint_type(0)) + 1;
+        }
+        return difference_type(diff);
+    }
+
+    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void add(const uint_type& n, bool moves) IPADDRESS_NOEXCEPT {
         const uint_type offset = _step * n;
-        if (n != 0 && offset == 0) { // the whole address space
+        if (moves && offset == 0) { // the whole address space
             ++_it._carry;
         } else {
             _it += offset;
@@ -441,9 +449,9 @@ private:
         _current = value_type::from_address(*_it, _prefixlen);
     }
 
-    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void sub(const uint_type& n) IPADDRESS_NOEXCEPT {
+    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void sub(const uint_type& n, bool moves) IPADDRESS_NOEXCEPT {
         const uint_type offset = _step * n;
-        if (n != 0 && offset == 0) { // the whole address space
+        if (moves && offset == 0) { // the whole address space
             --_it._carry;
         } else {
             _it -= offset;
-- 
2.43.0


From dfd78b60997a2bcc95c3f1c6e8c147223d693c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:05 +0000
Subject: [PATCH 39/39] fix: count the 2^32 addresses of 0.0.0.0/0 in
 version-agnostic networks

---
 include/ipaddress/ip-any-network.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ipaddress/ip-any-network.hpp b/include/ipaddress/ip-any-network.hpp
index a28289c..33f69ca 100644
--- a/include/ipaddress/ip-any-network.hpp
+++ b/include/ipaddress/ip-any-network.hpp
@@ -295,7 +295,9 @@ public:
      * @return The total number of addresses in the network as a `uint128_t` value.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE uint128_t addresses_count() const IPADDRESS_NOEXCEPT {
-        return is_v4() ? uint128_t(_ipv_net.ipv4.addresses_count()) : _ipv_net.ipv6.addresses_count();
+        return is_v4()
+            ? uint128_t(_ipv_net.ipv4.broadcast_address().to_uint() - _ipv_net.ipv4.network_address().to_uint()) + 1
+            : _ipv_net.ipv6.addresses_count();
     }
 
     /**
-- 
2.43.0

