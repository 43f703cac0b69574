From 0e679fa176c952b051c11a0aa27c0e67b8984e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:56 +0000
Subject: [PATCH 01/23] fix: ipv4_mapped() must require the first 80 bits to be
 zero

---
 include/ipaddress/ipv6-address.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index ed081ff..ce062b8 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -721,6 +721,11 @@ public:
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE optional<ipv4_address> ipv4_mapped() const IPADDRESS_NOEXCEPT {
         const auto& b = bytes();
+        for (size_t i = 0; i < 10; ++i) {
+            if (b[i] != 0) {
+                return nullptr;
+            }
+        }
         if (b[10] != 0xFF || b[11] != 0xFF) {
             return nullptr;
         } 
-- 
2.43.0


From 362c3a5c6f530502ca8300dad493eab4e260408e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:03 +0000
Subject: [PATCH 02/23] fix: IPv6 operator< without <=> must compare scope ids
 only for equal bytes

---
 include/ipaddress/ipv6-address.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index ce062b8..bd218de 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -816,7 +816,7 @@ protected:
         return lhs._data.bytes < rhs._data.bytes 
         
         #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
-            ? true : lhs._data.scope_id.compare(rhs._data.scope_id) < 0;
+            || (lhs._data.bytes == rhs._data.bytes && lhs._data.scope_id.compare(rhs._data.scope_id) < 0)
         #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
             ;
     }
-- 
2.43.0


From 9601958190a70ac7d7169e10c52f2829859e99f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:17 +0000
Subject: [PATCH 03/23] fix: from_address default prefix length named a member
 that does not exist

---
 include/ipaddress/ip-network-base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 04a8136..e036247 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -424,7 +424,7 @@ public:
      */
     IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_base from_address(
         const ip_address_type& address, 
-        size_t prefixlen = ip_address_type::max_prefixlen, 
+        size_t prefixlen = ip_address_type::base_max_prefixlen, 
         bool strict = true
     ) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         auto code = error_code::no_error;
@@ -452,7 +452,7 @@ public:
     static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_base from_address(
         const ip_address_type& address, 
         error_code& code, 
-        size_t prefixlen = ip_address_type::max_prefixlen, 
+        size_t prefixlen = ip_address_type::base_max_prefixlen, 
         bool strict = true
     ) IPADDRESS_NOEXCEPT {
         code = error_code::no_error;
-- 
2.43.0


From 7b28ce297503822e313da46fcda87d75a4ffb1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:39 +0000
Subject: [PATCH 04/23] fix: from_address rejects a prefix length beyond the
 address width

---
 include/ipaddress/ip-network-base.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index e036247..6144d3b 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -457,6 +457,11 @@ public:
     ) IPADDRESS_NOEXCEPT {
         code = error_code::no_error;
 
+        if (prefixlen > ip_address_type::base_max_prefixlen) {
+            code = error_code::invalid_netmask;
+            return ip_network_base();
+        }
+
         const auto netmask = ip_address_type::ip_from_prefix(prefixlen); 
 
         ip_network_base result;
-- 
2.43.0


From 835d41fe3e11619ccba49743f622a56526591091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:49 +0000
Subject: [PATCH 05/23] fix: supernet no longer shifts the netmask by its full
 width

---
 include/ipaddress/ip-network-base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 6144d3b..5b1dc5c 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -1132,7 +1132,7 @@ public:
         }
 
         const auto new_prefix = prefixlen() - prefixlen_diff;
-        const auto address = ip_address_type::from_uint(network_address().to_uint() & (netmask().to_uint() << prefixlen_diff));
+        const auto address = ip_address_type::from_uint(network_address().to_uint() & ip_address_type::ip_from_prefix(new_prefix).to_uint());
         return ip_network_base<Base>::from_address(address, new_prefix);
     }
 
-- 
2.43.0


From 63a7b5d8094377be859353aa3cb8365f276909a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:36 +0000
Subject: [PATCH 06/23] fix: uint128_t shifts by 128 gave an undefined shift by
 64

---
 include/ipaddress/uint128.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/uint128.hpp b/include/ipaddress/uint128.hpp
index e4dfa96..71b0462 100644
--- a/include/ipaddress/uint128.hpp
+++ b/include/ipaddress/uint128.hpp
@@ -950,7 +950,7 @@ public:
         if (!shift) {
             return *this;
         }
-        if (shift >= 64 && shift <= 128) {
+        if (shift >= 64 && shift < 128) {
             return { _lower << (shift - 64), 0 };
         }
         if (shift < 64 && shift > 0) {
@@ -973,7 +973,7 @@ public:
         if (!shift) {
             return *this;
         }
-        if (shift >= 64 && shift <= 128) {
+        if (shift >= 64 && shift < 128) {
             return { 0, _upper >> (shift - 64) };
         }
         if (shift < 64 && shift > 0) {
-- 
2.43.0


From 4e81cc708727b6344a84e37544484e260724cb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:53 +0000
Subject: [PATCH 07/23] fix: hosts() of a network at the end of the address
 space never reached end()

---
 include/ipaddress/ip-address-iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/ip-address-iterator.hpp b/include/ipaddress/ip-address-iterator.hpp
index dcbfc15..e2a4357 100644
--- a/include/ipaddress/ip-address-iterator.hpp
+++ b/include/ipaddress/ip-address-iterator.hpp
@@ -891,7 +891,7 @@ public:
             const auto begin = value_type::from_uint(network_address.to_uint());
             const auto end = value_type::from_uint(broadcast_address.to_uint() + 1);
             _begin = const_iterator(begin);
-            _end = const_iterator(end);
+            _end = const_iterator(end, end < begin ? 1 : 0);
         } else if (prefixlen == max_prefixlen) {
             const auto begin = value_type::from_uint(network_address.to_uint());
             const auto end = value_type::from_uint(network_address.to_uint() + 1);
@@ -901,7 +901,7 @@ public:
             const auto begin = value_type::from_uint(network_address.to_uint() + 1);
             const auto end = value_type::from_uint(broadcast_address.to_uint() + (std::is_same<value_type, ipv6_address>::value ? 1 : 0));
             _begin = const_iterator(begin);
-            _end = const_iterator(end);
+            _end = const_iterator(end, end < begin ? 1 : 0);
         }
     }
 
-- 
2.43.0


From 4aa6f414a97866f7832c1752296fd770e36702cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:53 +0000
Subject: [PATCH 08/23] fix: address iterators count turns of the address space
 and move by negative steps

---
 include/ipaddress/ip-address-iterator.hpp | 28 +++++++++++++++++------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/include/ipaddress/ip-address-iterator.hpp b/include/ipaddress/ip-address-iterator.hpp
index e2a4357..4cc42e8 100644
--- a/include/ipaddress/ip-address-iterator.hpp
+++ b/include/ipaddress/ip-address-iterator.hpp
@@ -555,7 +555,7 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_iterator& operator+=(difference_type n) IPADDRESS_NOEXCEPT {
-        add(n);
+        move(n < 0, n);
         return *this;
     }
 
@@ -581,7 +581,7 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_iterator& operator-=(difference_type n) IPADDRESS_NOEXCEPT {
-        sub(n);
+        move(n >= 0, n);
         return *this;
     }
 
@@ -689,7 +689,8 @@ public:
      * @return The number of elements between this and the other iterator.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE difference_type operator-(const ip_address_iterator& other) const IPADDRESS_NOEXCEPT {
-        return difference_type(_offset - other._offset);
+        const auto turns = sizeof(uint_type) < sizeof(difference_type) ? uint64_t(_carry) - uint64_t(other._carry) : 0;
+        return difference_type(uint64_t(_offset) - uint64_t(other._offset) + (turns << 32));
     }
 
     /**
@@ -792,7 +793,7 @@ private:
         const auto old = result._offset;
         ++result._offset;
         if (result._offset < old) {
-            result._carry = 1 - result._carry;
+            ++result._carry;
         }
         result._current = value_type::from_uint(result._offset);
         return result;
@@ -803,18 +804,31 @@ private:
         const auto old = result._offset;
         --result._offset;
         if (result._offset > old) {
-            result._carry = 1 - result._carry;
+            --result._carry;
         }
         result._current = value_type::from_uint(result._offset);
         return result;
     }
 
+    // moves by the magnitude of n, which may exceed the range of a 32-bit uint_type
+    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void move(bool back, difference_type n) IPADDRESS_NOEXCEPT {
+        const auto count = n < 0 ? uint64_t(0) - uint64_t(n) : uint64_t(n);
+        const auto turns = sizeof(uint_type) < sizeof(count) ? int(count >> 32) : 0;
+        if (back) {
+            sub(uint_type(count));
+            _carry -= turns;
+        } else {
+            add(uint_type(count));
+            _carry += turns;
+        }
+    }
+
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void add(const uint_type& n) IPADDRESS_NOEXCEPT {
         if (n != 0) {
             const auto old = _offset;
             _offset += n;
             if (_offset < old) {
-                _carry = 1 - _carry;
+                ++_carry;
             }
             _current = value_type::from_uint(_offset);
         }
@@ -825,7 +839,7 @@ private:
             const auto old = _offset;
             _offset -= n;
             if (_offset > old) {
-                _carry = 1 - _carry;
+                --_carry;
             }
             _current = value_type::from_uint(_offset);
         }
-- 
2.43.0


From 1d3f899efbfa85404186638469ca49ff65965a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:53 +0000
Subject: [PATCH 09/23] fix: subnets resets the error code and rejects huge
 prefix differences

---
 include/ipaddress/ip-network-base.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 5b1dc5c..4893d8c 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -1025,6 +1025,8 @@ public:
      * @remark `subnets_sequence` uses lazy evaluation to iterate over the subnets.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE subnets_sequence<ip_network_base<Base>> subnets(error_code& code, size_t prefixlen_diff = 1, optional<size_t> new_prefixlen = nullptr) const IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
+
         auto address = Base::remove_scope_id(network_address());
 
         if (prefixlen() == ip_address_type::base_max_prefixlen) {
@@ -1043,13 +1045,13 @@ public:
             prefixlen_diff = new_prefixlen.value() - prefixlen();
         }
 
-        auto new_prefix = prefixlen() + prefixlen_diff;
-
-        if (new_prefix > ip_address_type::base_max_prefixlen) {
+        if (prefixlen_diff > ip_address_type::base_max_prefixlen - prefixlen()) {
             code = error_code::invalid_prefixlen_diff;
             return subnets_sequence<ip_network_base<Base>>();
         }
 
+        const auto new_prefix = prefixlen() + prefixlen_diff;
+
         return subnets_sequence<ip_network_base<Base>>(address, broadcast_address(), hostmask(), prefixlen_diff, new_prefix);
     }
 
-- 
2.43.0


From 417999abfa6a1303e1aff023b7a3e1399db349b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:53 +0000
Subject: [PATCH 10/23] fix: subnets of a network at the end of the address
 space, and of /0, had a wrong end

---
 include/ipaddress/ip-network-iterator.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index a40e03c..c2aeaff 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -734,10 +734,11 @@ public:
         const auto end_uint = broadcast_address.to_uint();
         const auto begin = ip_address_type::from_uint(begin_uint);
         const auto end = ip_address_type::from_uint(end_uint + 1);
-        const auto step = (hostmask.to_uint() >> prefixlen_diff) + 1;
+        const auto half_diff = prefixlen_diff / 2; // a single shift by the full width of a 32-bit uint_type would be undefined
+        const auto step = (hostmask.to_uint() >> half_diff >> (prefixlen_diff - half_diff)) + 1;
         _begin = const_iterator(begin, step, new_prefixlen);
-        _end = const_iterator(end, step, new_prefixlen, begin == end ? 1 : 0);
-        _size = (end_uint - begin_uint) / step + 1;
+        _end = const_iterator(end, step, new_prefixlen, end <= begin ? 1 : 0);
+        _size = step != 0 ? (end_uint - begin_uint) / step + 1 : difference_type(1);
     }
 
     /**
-- 
2.43.0


From 168168f4672dd14e92cf909f9da5ac77514e1936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:53 +0000
Subject: [PATCH 11/23] fix: network iterators count turns of the address space
 and subtract to a number of elements

---
 include/ipaddress/ip-network-iterator.hpp | 65 ++++++++++++++++-------
 1 file changed, 46 insertions(+), 19 deletions(-)

diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index c2aeaff..c35c19e 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -67,7 +67,9 @@ public:
      *         which can correctly represent all addresses using the integer number uint128_t
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE uint_type uint_diff(const ip_network_iterator& other) const IPADDRESS_NOEXCEPT {
-        return _it.uint_diff(other._it) / _step;
+        const auto turns = uint_type(turns_diff(other));
+        const auto shift = _prefixlen / 2; // a single shift by the full width of a 32-bit uint_type would be undefined
+        return steps_diff(other) + (turns << shift << (_prefixlen - shift));
     }
 
     /**
@@ -169,7 +171,7 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator& operator+=(difference_type n) IPADDRESS_NOEXCEPT {
-        add(n);
+        move(n < 0, n);
         return *this;
     }
 
@@ -195,7 +197,7 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator& operator-=(difference_type n) IPADDRESS_NOEXCEPT {
-        sub(n);
+        move(n >= 0, n);
         return *this;
     }
 
@@ -303,7 +305,8 @@ public:
      * @return The number of elements between this and the other iterator.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE difference_type operator-(const ip_network_iterator& other) const IPADDRESS_NOEXCEPT {
-        return difference_type(_it - other._it);
+        const auto turns = uint64_t(turns_diff(other));
+        return difference_type(uint64_t(steps_diff(other)) + (_prefixlen < 64 ? turns << _prefixlen : 0));
     }
 
     /**
@@ -403,35 +406,59 @@ public:
 private:
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator base() const IPADDRESS_NOEXCEPT {
         auto result = *this;
-        const auto old = result._it._offset;
-        result._it._offset += _step;
-        if (result._it._offset < old) {
-            result._it._carry = 1 - result._it._carry;
-        }
-        result._it._current = ip_address_type::from_uint(result._it._offset);
-        result._current = value_type::from_address(*result._it, result._prefixlen);
+        result.add(1);
         return result;
     }
 
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator reverse() const IPADDRESS_NOEXCEPT {
         auto result = *this;
-        const auto old = result._it._offset;
-        result._it._offset -= _step;
-        if (result._it._offset > old) {
-        result._it._carry = 1 - result._it._carry;
-        }
-        result._it._current = ip_address_type::from_uint(result._it._offset);
-        result._current = value_type::from_address(*result._it, result._prefixlen);
+        result.sub(1);
         return result;
     }
 
+    // the number of whole steps between two iterators in the same turn of the address space
+    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE uint_type steps_diff(const ip_network_iterator& other) const IPADDRESS_NOEXCEPT {
+        return _step != 0 ? uint_type(_it.uint_diff(other._it) / _step) : uint_type(0);
+    }
+
+    // the number of turns of the address space to add to steps_diff
+    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE int turns_diff(const ip_network_iterator& other) const IPADDRESS_NOEXCEPT {
+        return _it._carry - other._it._carry - (_it._offset < other._it._offset ? 1 : 0);
+    }
+
+    // the number of turns of the address space in n steps
+    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE int turns(const uint_type& n) const IPADDRESS_NOEXCEPT {
+        return _prefixlen < sizeof(uint_type) * 8 ? int(n >> _prefixlen) : 0;
+    }
+
+    // moves by the magnitude of n, which may exceed the range of a 32-bit uint_type
+    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void move(bool back, difference_type n) IPADDRESS_NOEXCEPT {
+        const auto count = n < 0 ? uint64_t(0) - uint64_t(n) : uint64_t(n);
+        const auto count_turns = _prefixlen < 64 ? int(count >> _prefixlen) : 0;
+        if (back) {
+            sub(uint_type(count), count_turns);
+        } else {
+            add(uint_type(count), count_turns);
+        }
+    }
+
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void add(const uint_type& n) IPADDRESS_NOEXCEPT {
+        add(n, turns(n));
+    }
+
+    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void sub(const uint_type& n) IPADDRESS_NOEXCEPT {
+        sub(n, turns(n));
+    }
+
+    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void add(const uint_type& n, int turns) IPADDRESS_NOEXCEPT {
         _it += _step * n;
+        _it._carry += turns;
         _current = value_type::from_address(*_it, _prefixlen);
     }
 
-    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void sub(const uint_type& n) IPADDRESS_NOEXCEPT {
+    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void sub(const uint_type& n, int turns) IPADDRESS_NOEXCEPT {
         _it -= _step * n;
+        _it._carry -= turns;
         _current = value_type::from_address(*_it, _prefixlen);
     }
 
-- 
2.43.0


From 826dc7b5ede2bd686b234e8971fb21fe1386c284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:53 +0000
Subject: [PATCH 12/23] fix: version-independent iterators move by negative and
 2^32 steps; order of different versions without <=>

---
 include/ipaddress/ip-any-iterator.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/ipaddress/ip-any-iterator.hpp b/include/ipaddress/ip-any-iterator.hpp
index a4fa14b..31ab8db 100644
--- a/include/ipaddress/ip-any-iterator.hpp
+++ b/include/ipaddress/ip-any-iterator.hpp
@@ -84,7 +84,7 @@ public:
         if (_version != other._version) {
             return 0;
         }
-        return _version == ip_version::V4 ? uint128_t(_iter.iter4.uint_diff(other._iter.iter4)) : _iter.iter6.uint_diff(other._iter.iter6);
+        return _version == ip_version::V4 ? uint128_t(_iter.iter4 - other._iter.iter4) : _iter.iter6.uint_diff(other._iter.iter6);
     }
 
     /**
@@ -374,7 +374,7 @@ public:
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool operator<(const ip_any_iterator& other) const IPADDRESS_NOEXCEPT {
         if (_version != other._version) {
-            return false;
+            return _version < other._version;
         }
         return _version == ip_version::V4 ? _iter.iter4 < other._iter.iter4 : _iter.iter6 < other._iter.iter6;
     }
@@ -426,9 +426,10 @@ private:
         return _version == ip_version::V4 ? ip_any_iterator(_iter.iter4.reverse()) : ip_any_iterator(_iter.iter6.reverse());
     }
 
-    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void add(const uint128_t& n) IPADDRESS_NOEXCEPT {
+    template <typename N>
+    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void add(const N& n) IPADDRESS_NOEXCEPT {
         if (_version == ip_version::V4) {
-            _iter.iter4 += uint32_t(n);
+            _iter.iter4 += difference_type(n);
             _current = *_iter.iter4;
         } else {
             _iter.iter6 += n;
@@ -436,9 +437,10 @@ private:
         }
     }
 
-    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void sub(const uint128_t& n) IPADDRESS_NOEXCEPT {
+    template <typename N>
+    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void sub(const N& n) IPADDRESS_NOEXCEPT {
         if (_version == ip_version::V4) {
-            _iter.iter4 -= uint32_t(n);
+            _iter.iter4 -= difference_type(n);
             _current = *_iter.iter4;
         } else {
             _iter.iter6 -= n;
-- 
2.43.0


From 803eecc40acbab30f053f004bae41d5c79765535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:08 +0000
Subject: [PATCH 13/23] fix: address_exclude resets the error code

---
 include/ipaddress/ip-network-base.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 4893d8c..cce9320 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -943,6 +943,8 @@ public:
      * @remark `exclude_network_sequence` uses lazy evaluation to iterate networks.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE exclude_network_sequence<ip_network_base<Base>> address_exclude(const ip_network_base& other, error_code& code) const IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
+
         auto lhs = Base::remove_scope_id(*this);
         auto rhs = Base::remove_scope_id(other);
 
-- 
2.43.0


From 2472515f512f67ad1772dd030bbc92c9e6a25bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:08 +0000
Subject: [PATCH 14/23] fix: exclusion of a network no longer ends at a result
 of address zero

---
 include/ipaddress/ip-network-iterator.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index c35c19e..1615517 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -602,7 +602,7 @@ public:
      * @return `true` if the iterators are equal, `false` otherwise.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool operator==(const ip_exclude_network_iterator& other) const IPADDRESS_NOEXCEPT {
-        return _current == other._current;
+        return _current == other._current && _other == other._other;
     }
 
     /**
@@ -628,7 +628,11 @@ public:
      * @return The result of the comparison as a std::strong_ordering value.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE std::strong_ordering operator<=>(const ip_exclude_network_iterator& other) const IPADDRESS_NOEXCEPT {
-        return other._current <=> _current;
+        if (const auto result = other._current <=> _current; result == std::strong_ordering::equivalent) {
+            return other._other <=> _other;
+        } else {
+            return result;
+        }
     }
 
 #else // !IPADDRESS_HAS_SPACESHIP_OPERATOR
@@ -642,7 +646,7 @@ public:
      * @return `true` if the left iterator is less than the right iterator, `false` otherwise.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool operator<(const ip_exclude_network_iterator& other) const IPADDRESS_NOEXCEPT {
-        return other._current < _current;
+        return other._current < _current || (other._current == _current && other._other < _other);
     }
 
     /**
-- 
2.43.0


From 48d5d2fa4f8a58d9c8c334749ea3cd88d805bcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:15 +0000
Subject: [PATCH 15/23] fix: dotted netmask 0.0.0.0 is the prefix length 0 and
 no undefined shift

---
 include/ipaddress/base-v4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/base-v4.hpp b/include/ipaddress/base-v4.hpp
index 3a225ee..2244fc4 100644
--- a/include/ipaddress/base-v4.hpp
+++ b/include/ipaddress/base-v4.hpp
@@ -243,7 +243,7 @@ private:
         auto trailing_zeroes = count_righthand_zero_bits(ip, base_max_prefixlen);
         auto prefixlen = base_max_prefixlen - trailing_zeroes;
         auto leading_ones = trailing_zeroes != 32 ? (ip >> trailing_zeroes) : 0;
-        auto all_ones = (uint_type(1) << (prefixlen - 1) << 1) - uint_type(1); // NOLINT
+        auto all_ones = prefixlen != 0 ? (uint_type(1) << (prefixlen - 1) << 1) - uint_type(1) : 0; // NOLINT
         if (leading_ones != all_ones) {
             code = error_code::netmask_pattern_mixes_zeroes_and_ones;
             return 0;
-- 
2.43.0


From 683935f1a6db0c66d7c514ed3ac1db2569ca8aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:15 +0000
Subject: [PATCH 16/23] fix: prefix length in network text no longer wraps
 around

---
 include/ipaddress/base-v4.hpp | 4 +++-
 include/ipaddress/base-v6.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/base-v4.hpp b/include/ipaddress/base-v4.hpp
index 2244fc4..e30b6b1 100644
--- a/include/ipaddress/base-v4.hpp
+++ b/include/ipaddress/base-v4.hpp
@@ -191,7 +191,9 @@ protected:
                 return std::make_tuple(ip_address_base<Ext>(), 0);
             }
             if (c >= '0' && c <= '9') {
-                prefixlen = prefixlen * 10 + (c - '0');
+                if (prefixlen <= base_max_prefixlen) {
+                    prefixlen = prefixlen * 10 + (c - '0');
+                }
             } else {
                 is_value = false;
                 break;
diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index 2f155cb..9e9d81f 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -253,7 +253,9 @@ protected:
                 return std::make_tuple(ip_address_base<Ext>(), 0);
             }
             if (c >= '0' && c <= '9') {
-                prefixlen = prefixlen * 10 + (c - '0');
+                if (prefixlen <= base_max_prefixlen) {
+                    prefixlen = prefixlen * 10 + (c - '0');
+                }
             } else {
                 code = error_code::invalid_netmask;
                 return std::make_tuple(ip_address_base<Ext>(), 0);
-- 
2.43.0


From 1e4a9571c6d1e54010c6a0c0ae3eb83769890bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:42 +0000
Subject: [PATCH 17/23] fix: network text is parsed from the whole address
 part, not from a truncated copy

---
 include/ipaddress/ip-network-base.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index cce9320..b0ecde9 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -1269,9 +1269,9 @@ private:
         auto end = str.data() + str.size();
         auto has_slash = false;
         auto netmask = end;
-        auto symbol = 0;
-        char address[ip_address_type::base_max_string_len + 1] = {};
+        auto address_end = end;
         while (it < end) {
+            const auto symbol = it;
             const auto c = internal::next_char_or_error(it, end, code, code_value);
             if (code != error_code::no_error) {
                 return ip_network_base<Base>();
@@ -1286,14 +1286,9 @@ private:
                     return ip_network_base<Base>();
                 }
                 netmask = it;
+                address_end = symbol;
                 has_slash = true;
             }
-            if (!has_slash) {
-                address[symbol++] = c;
-            }
-            if (symbol > ip_address_type::base_max_string_len) {
-                break;
-            }
         }
 
         auto netmask_result = ip_address_type::parse_netmask(netmask, end, code, code_value);
@@ -1303,7 +1298,8 @@ private:
         }
 
         ip_network_base<Base> result;
-        result._network_address = ip_address_type::parse(address, code);
+        uint32_t address_value = 0;
+        result._network_address = ip_address_type::ip_from_string(str.data(), address_end, code, address_value);
         result._netmask = std::get<0>(netmask_result);
         result._prefixlen = std::get<1>(netmask_result);
 
-- 
2.43.0


From 4dcfea862bd53c36f01497df2ec2f4aa0319205a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:42 +0000
Subject: [PATCH 18/23] fix: NUL inside an IPv6 text is an invalid symbol and
 does not truncate a group or the scope id

---
 include/ipaddress/base-v6.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index 9e9d81f..b0da92e 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -20,7 +20,7 @@ namespace IPADDRESS_NAMESPACE {
 namespace internal {
 
 IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_invalid_scope_id_symbol(char c) IPADDRESS_NOEXCEPT {
-    return c == '%' || c == '/' 
+    return c == '\0' || c == '%' || c == '/' 
 #ifndef IPADDRESS_SCOPE_ID_SUPPORT_SPACES
     || c == ' ' || (c >= '\t' && c <= '\r')
 #endif // IPADDRESS_SCOPE_ID_SUPPORT_SPACES
@@ -306,6 +306,7 @@ private:
         auto it = begin;
         auto scope = false;
         ip_and_scope<Iter> result{};
+        result.end_ip = begin;
         while (it < end) {
             const auto c = internal::next_char_or_error(it, end, error, error_value);
             if (error != error_code::no_error) {
@@ -364,6 +365,10 @@ private:
                 parts_count = error_symbol;
                 return empty_parts;
             }
+            if (c == '\0') {
+                error = error_code::part_has_invalid_symbol;
+                return empty_parts;
+            }
             if (!has_double_colon && c == ':' && prev_c == ':') {
                 has_double_colon = true;
             }
-- 
2.43.0


From b78b0288f1326f7dd0b898c01f633b84376b08aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:42 +0000
Subject: [PATCH 19/23] fix: leading double colon before five groups and a
 dotted quad is accepted

---
 include/ipaddress/base-v6.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index b0da92e..7bd438d 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -424,7 +424,8 @@ private:
         }
 
         if (has_ipv4) {
-            if (parts_count + 1 >= _max_parts) {
+            const auto leading_double_colon = parts_count > 1 && parts[0][0] == '\0' && parts[1][0] == '\0';
+            if (parts_count + 1 >= _max_parts + (leading_double_colon ? 1 : 0)) {
                 error = error_code::most_8_colons_permitted;
                 return empty_parts;
             }
-- 
2.43.0


From afbcc91a2aad5685a759fac3fd9828add10f424b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:18 +0000
Subject: [PATCH 20/23] fix: malformed and overlong UTF-8 sequences are
 rejected, never decoded to an ASCII character

---
 include/ipaddress/unicode.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/ipaddress/unicode.hpp b/include/ipaddress/unicode.hpp
index 2caa68e..690ed04 100644
--- a/include/ipaddress/unicode.hpp
+++ b/include/ipaddress/unicode.hpp
@@ -61,17 +61,20 @@ struct utf8_reader {
                 
                 case 2:
                     symbol.value = (symbol.value << 6) | trailing_utf8_code_point(it, end, correct);
+                    correct = correct && symbol.value > 0x7F;
                     break;
                     
                 case 3:
                     symbol.value = (symbol.value << 6) | trailing_utf8_code_point(it, end, correct);
                     symbol.value = (symbol.value << 6) | trailing_utf8_code_point(it, end, correct);
+                    correct = correct && symbol.value > 0x7FF;
                     break;
                     
                 case 4:
                     symbol.value = (symbol.value << 6) | trailing_utf8_code_point(it, end, correct);
                     symbol.value = (symbol.value << 6) | trailing_utf8_code_point(it, end, correct);
                     symbol.value = (symbol.value << 6) | trailing_utf8_code_point(it, end, correct);
+                    correct = correct && symbol.value > 0xFFFF;
                     break;
                     
                 default:
@@ -109,12 +112,14 @@ struct utf8_reader {
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE uint32_t trailing_utf8_code_point(const T*& it, const T* end, bool& correct) IPADDRESS_NOEXCEPT {
+        if (!correct) {
+            return 0;
+        }
         if (++it >= end) {
             correct = false;
             return 0;
         } 
         if ((uint8_t(*it) & 0b11000000) == 0b10000000) {
-            correct = true;
             return uint8_t(*it) & 0b00111111;
         } 
         correct = false;
-- 
2.43.0


From 6c989e536704746c074b1dcb75af4ac111bc20ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:07 +0000
Subject: [PATCH 21/23] fix: IPv6 literals accept the longest valid text
 (dotted quad and scope id)

---
 include/ipaddress/base-v6.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index 7bd438d..80cb93a 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -46,7 +46,7 @@ public:
 
     static constexpr ip_version base_version = ip_version::V6;
     static constexpr size_t base_size = 16;
-    static constexpr size_t base_max_string_len = 41 + IPADDRESS_IPV6_SCOPE_MAX_LENGTH;
+    static constexpr size_t base_max_string_len = 46 + IPADDRESS_IPV6_SCOPE_MAX_LENGTH;
     static constexpr size_t base_max_prefixlen = base_size * 8;
 
     /**
-- 
2.43.0


From 2ba1a15e6e24fa33f5d774e1d8b45f1b8d9d6ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:53 +0000
Subject: [PATCH 22/23] fix: numeric scope id of 2^32 or more no longer wraps
 around

---
 include/ipaddress/ipv6-address.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index bd218de..d1ff859 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -242,18 +242,22 @@ private:
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void parse_value() IPADDRESS_NOEXCEPT {
         if (!_scope_id.empty()) {
             _has_value = true;
-            uint32_t value = 0;
+            uint64_t value = 0;
             const auto scope_id_size = _scope_id.size();
             for (size_t i = 0; i < scope_id_size; ++i) {
                 const auto c = _scope_id[i];
                 if (c >= '0' && c <= '9') {
-                    value = value * 10 + (c - '0');
+                    value = value * 10 + uint64_t(c - '0');
                 } else {
                     _has_value = false;
                     break;
                 }
+                if (value > 0xFFFFFFFFU) {
+                    _has_value = false;
+                    break;
+                }
             }
-            _scope_id_value = _has_value ? value : 0;
+            _scope_id_value = _has_value ? uint32_t(value) : 0;
         }
     }
 
-- 
2.43.0


From 114c734691a70150672cdb9ef6888f7510c3aa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:42 +0000
Subject: [PATCH 23/23] fix: ip_address::set_scope_id resets the error code of
 an IPv4 address

---
 include/ipaddress/ip-any-address.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/ipaddress/ip-any-address.hpp b/include/ipaddress/ip-any-address.hpp
index 32179d6..0095307 100644
--- a/include/ipaddress/ip-any-address.hpp
+++ b/include/ipaddress/ip-any-address.hpp
@@ -854,6 +854,7 @@ public:
      * @endparblock
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -875,6 +876,7 @@ public:
      * @endparblock
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::wstring_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -893,6 +895,7 @@ public:
      * @remark If scope is disabled in settings (`IPADDRESS_IPV6_SCOPE_MAX_LENGTH == 0`) then this call will have no effect.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::u8string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -916,6 +919,7 @@ public:
      * @endparblock
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::u16string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -937,6 +941,7 @@ public:
      * @endparblock
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::u32string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -1087,6 +1092,7 @@ public:
      * @param[out] code An error_code object that will store the result of the operation.
      */
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::string& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -1099,6 +1105,7 @@ public:
      * @param[out] code An error_code object that will store the result of the operation.
      */
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::wstring& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -1111,6 +1118,7 @@ public:
      * @param[out] code An error_code object that will store the result of the operation.
      */
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::u16string& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -1123,6 +1131,7 @@ public:
      * @param[out] code An error_code object that will store the result of the operation.
      */
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::u32string& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
-- 
2.43.0

