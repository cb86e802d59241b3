From 56da536f5227497adffbe7b2e0c791aa91215fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:44 +0000
Subject: [PATCH 01/22] fix: an empty match switches to the start state its
 rule names

---
 include/lexertl/generate_cpp.hpp | 17 ++++++++++++++++-
 include/lexertl/lookup.hpp       |  3 ++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index b545822..a4353fd 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -207,7 +207,22 @@ namespace lexertl
 
             if (internals_._dfa.size() > 1)
             {
-                os_ << "    id_type start_state_ = results_.state;\n";
+                os_ << "    id_type start_state_ = end_state_ ? ";
+
+                if (pointers_)
+                {
+                    // Done this way for GCC:
+                    os_ << "static_cast<id_type>(reinterpret_cast<ptrdiff_t>(";
+                }
+
+                os_ << "*(ptr_ + " << *state_index::next_dfa << ')';
+
+                if (pointers_)
+                {
+                    os_ << "))";
+                }
+
+                os_ << " : results_.state;\n";
             }
 
             if (internals_._features & *feature_bit::bol)
diff --git a/include/lexertl/lookup.hpp b/include/lexertl/lookup.hpp
index 2df4374..b3861c6 100644
--- a/include/lexertl/lookup.hpp
+++ b/include/lexertl/lookup.hpp
@@ -119,7 +119,8 @@ namespace lexertl
                 _id(*(_ptr + *state_index::id)),
                 _uid(*(_ptr + *state_index::user_id)),
                 _bol_state(bol_),
-                _multi_state_state(state_),
+                _multi_state_state(_end_state ?
+                    *(_ptr + *state_index::next_dfa) : state_),
                 _recursive_state(_ptr)
             {
             }
-- 
2.43.0


From de7ba64a655cc936057fceeff8ac63652e8db3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 02/22] fix: serialise ids as numbers for 8 bit id types

---
 include/lexertl/serialise.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/lexertl/serialise.hpp b/include/lexertl/serialise.hpp
index 10ebb17..9fb0e7f 100644
--- a/include/lexertl/serialise.hpp
+++ b/include/lexertl/serialise.hpp
@@ -29,7 +29,8 @@ namespace lexertl
 
             for (const id_type l_ : vec_)
             {
-                ss_ << l_;
+                // Never output a number as a character
+                ss_ << static_cast<std::size_t>(l_);
                 str_ = ss_.str();
 
                 if (line_len_ + str_.size() + 1 > 80)
@@ -78,7 +79,7 @@ namespace lexertl
         stream_ << 1 << '\n';
         stream_ << sizeof(char_type) << '\n';
         stream_ << sizeof(id_type) << '\n';
-        stream_ << internals_._eoi << '\n';
+        stream_ << static_cast<std::size_t>(internals_._eoi) << '\n';
         stream_ << internals_._lookup.size() << '\n';
 
         for (const auto& vec_ : internals_._lookup)
@@ -87,7 +88,7 @@ namespace lexertl
         }
 
         detail::output_vec<char_type>(internals_._dfa_alphabet, stream_);
-        stream_ << internals_._features << '\n';
+        stream_ << static_cast<std::size_t>(internals_._features) << '\n';
         stream_ << internals_._dfa.size() << '\n';
 
         for (const auto& vec_ : internals_._dfa)
@@ -118,7 +119,8 @@ namespace lexertl
         if (num_ != sizeof(id_type))
             throw runtime_error("id_type mismatch in lexertl::load().");
 
-        stream_ >> internals_._eoi;
+        stream_ >> num_;
+        internals_._eoi = static_cast<id_type>(num_);
         stream_ >> num_;
         internals_._lookup.reserve(num_);
 
@@ -129,7 +131,8 @@ namespace lexertl
         }
 
         detail::input_vec<char_type>(stream_, internals_._dfa_alphabet);
-        stream_ >> internals_._features;
+        stream_ >> num_;
+        internals_._features = static_cast<id_type>(num_);
         stream_ >> num_;
         internals_._dfa.reserve(num_);
 
-- 
2.43.0


From 894325a757eda020a450ec6786aaae3816444819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:28 +0000
Subject: [PATCH 03/22] fix: advance the output iterator in replace()

---
 include/lexertl/replace.hpp | 44 ++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/include/lexertl/replace.hpp b/include/lexertl/replace.hpp
index 7655f38..688c958 100644
--- a/include/lexertl/replace.hpp
+++ b/include/lexertl/replace.hpp
@@ -31,13 +31,13 @@ namespace lexertl
 
         while (results_.id != 0)
         {
-            std::copy(last_, results_.first, out_);
-            std::copy(fmt_.cbegin(), fmt_.cend(), out_);
+            out_ = std::copy(last_, results_.first, out_);
+            out_ = std::copy(fmt_.cbegin(), fmt_.cend(), out_);
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -57,18 +57,18 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
-                std::copy(iter_->second.cbegin(), iter_->second.cend(), out_);
+                out_ = std::copy(iter_->second.cbegin(), iter_->second.cend(), out_);
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -90,22 +90,22 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
             {
                 const auto str_ = iter_->second(results_.first, results_.second);
 
-                std::copy(str_.cbegin(), str_.cend(), out_);
+                out_ = std::copy(str_.cbegin(), str_.cend(), out_);
             }
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -129,13 +129,13 @@ namespace lexertl
 
         while (results_.id != 0)
         {
-            std::copy(last_, results_.first, out_);
-            std::copy(fmt_, end_fmt_, out_);
+            out_ = std::copy(last_, results_.first, out_);
+            out_ = std::copy(fmt_, end_fmt_, out_);
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -153,10 +153,10 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
             {
                 const char_type* end_fmt_ = [end_ = iter_->second]() mutable
@@ -167,14 +167,14 @@ namespace lexertl
                         return end_;
                     }();
 
-                std::copy(iter_->second, end_fmt_, out_);
+                out_ = std::copy(iter_->second, end_fmt_, out_);
             }
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -193,10 +193,10 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
             {
                 const char_type* str_ =
@@ -209,14 +209,14 @@ namespace lexertl
                         return str_;
                     }();
 
-                std::copy(str_, end_str_, out_);
+                out_ = std::copy(str_, end_str_, out_);
             }
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
-- 
2.43.0


From 6a6c88f46f93b746a7950644cd5661c5749f729f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:38 +0000
Subject: [PATCH 04/22] fix: memory_file releases the whole mapping and the
 handle of an unmapped file

---
 include/lexertl/memory_file.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/lexertl/memory_file.hpp b/include/lexertl/memory_file.hpp
index d1c7768..035800b 100644
--- a/include/lexertl/memory_file.hpp
+++ b/include/lexertl/memory_file.hpp
@@ -46,10 +46,8 @@ namespace lexertl
 
         void open(const char* pathname_)
         {
-            if (_data)
-            {
-                close();
-            }
+            // Also release the handle of a file that could not be mapped
+            close();
 
 #ifdef _WIN32
             _fh = ::CreateFileA(pathname_, GENERIC_READ, FILE_SHARE_READ,
@@ -93,7 +91,8 @@ namespace lexertl
                     }
                     else
                     {
-                        _size = sbuf_.st_size / sizeof(char_type);
+                        _length = static_cast<std::size_t>(sbuf_.st_size);
+                        _size = _length / sizeof(char_type);
                     }
                 }
             }
@@ -117,7 +116,8 @@ namespace lexertl
 #ifdef _WIN32
                 ::UnmapViewOfFile(_data);
 #else
-                ::munmap(const_cast<char_type*>(_data), _size);
+                ::munmap(const_cast<char_type*>(_data), _length);
+                _length = 0;
 #endif
                 _data = nullptr;
                 _size = 0;
@@ -134,10 +134,10 @@ namespace lexertl
 
             _fh = nullptr;
 #else
-            if (_fh)
+            if (_fh > -1)
                 ::close(_fh);
 
-            _fh = 0;
+            _fh = -1;
 #endif
         }
 
@@ -148,7 +148,9 @@ namespace lexertl
         HANDLE _fh = nullptr;
         HANDLE _fmh = nullptr;
 #else
-        int _fh = 0;
+        // In bytes
+        std::size_t _length = 0;
+        int _fh = -1;
 #endif
     };
 
-- 
2.43.0


From 8d84e254c7fbb77e8397a3069fdbbbf5bd9f0c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 05/22] fix: a long hex escape must not wrap round to a small
 value

---
 include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
index c6b9b77..9d93963 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
@@ -1320,10 +1320,14 @@ namespace lexertl::detail
                 throw runtime_error(ss_.str());
             }
 
+            const auto max_ = static_cast<std::size_t>(char_traits::max_val());
             std::size_t hex_ = 0;
 
             do
             {
+                // Saturate so that hex_ cannot wrap
+                if (hex_ > max_) hex_ = max_ + 1;
+
                 hex_ *= 16;
 
                 if (ch_ >= '0' && ch_ <= '9')
-- 
2.43.0


From e9e4d648a77f960adce3a1011192137e76384365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:29 +0000
Subject: [PATCH 06/22] fix: split 24 bit ranges over the most significant byte

slice_range() used the middle bytes for the planes strictly between the
first and the last plane of a range, so that [\x100-\x2ffff] lost
characters and [\x1ff-\x20100] gained others.
---
 include/lexertl/parser/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index 127f0e9..ded1a8e 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -558,7 +558,7 @@ namespace lexertl::detail
 
                 if (second_msb_ > first_msb_ + 1)
                 {
-                    insert_range(first_mid_ + 1, second_mid_ - 1,
+                    insert_range(first_msb_ + 1, second_msb_ - 1,
                         0, 0xff,
                         0, 0xff, data_);
                 }
-- 
2.43.0


From 2acd2bdc0e63cac75d476bc28f3732b53675fb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:34 +0000
Subject: [PATCH 07/22] fix: reject repeat counts that do not fit std::size_t

The counts of {n}, {n,} and {n,m} were accumulated modulo 2^64, so that
a{18446744073709551617} was accepted as a{1}.
---
 .../lexertl/parser/tokeniser/re_tokeniser.hpp | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser.hpp b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
index ddc855b..7ac7185 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
@@ -563,8 +563,7 @@ namespace lexertl::detail
 
             while (!eos_ && ch_ >= '0' && ch_ <= '9')
             {
-                min_ *= 10;
-                min_ += static_cast<std::size_t>(ch_) - '0';
+                add_digit(state_, ch_, min_);
                 token_._extra += ch_;
                 eos_ = state_.next(ch_);
             }
@@ -630,8 +629,7 @@ namespace lexertl::detail
 
                     do
                     {
-                        max_ *= 10;
-                        max_ += static_cast<std::size_t>(ch_) - '0';
+                        add_digit(state_, ch_, max_);
                         token_._extra += ch_;
                         eos_ = state_.next(ch_);
                     } while (!eos_ && ch_ >= '0' && ch_ <= '9');
@@ -735,6 +733,24 @@ namespace lexertl::detail
             }
         }
 
+        static void add_digit(const state& state_, const rules_char_type ch_,
+            std::size_t& count_)
+        {
+            const std::size_t digit_ = static_cast<std::size_t>(ch_) - '0';
+
+            if (count_ > (static_cast<std::size_t>(~0) - digit_) / 10)
+            {
+                std::ostringstream ss_;
+
+                ss_ << "Repeat count is too big at index " <<
+                    state_.index() - 1;
+                state_.error(ss_);
+                throw runtime_error(ss_.str());
+            }
+
+            count_ = count_ * 10 + digit_;
+        }
+
         static void macro(state& state_, re_token& token_)
         {
             rules_char_type ch_ = 0;
-- 
2.43.0


From 4a09e66d81e5da3b51cf1219ab4123e4bad8dc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:12 +0000
Subject: [PATCH 08/22] fix: detect an id type too small for the character sets

parser::lookup() compared npos() with itself instead of checking the
number of character sets, so the ids of further sets wrapped round.
---
 include/lexertl/parser/parser.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index ded1a8e..4b07047 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -741,16 +741,18 @@ namespace lexertl::detail
             // Converted to id_type below.
             std::size_t id_ = sm_traits::npos();
 
-            if (static_cast<id_type>(id_) < id_)
-            {
-                throw runtime_error("id_type is not large enough "
-                    "to hold all ids.");
-            }
-
             if (auto iter_ = _charset_map.find(charset_);
                 iter_ == _charset_map.end())
             {
                 id_ = _charset_map.size();
+
+                // The ids from eol_token() up are reserved
+                if (id_ >= eol_token())
+                {
+                    throw runtime_error("id_type is not large enough "
+                        "to hold all ids.");
+                }
+
                 _charset_map.insert(charset_pair(charset_,
                     static_cast<id_type>(id_)));
             }
-- 
2.43.0


From 18519a9993329a903b58befe14d67184ffdf4642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:55 +0000
Subject: [PATCH 09/22] fix: anchors have no entry in the character set mapping

---
 include/lexertl/generator.hpp | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 0de20b0..3f35a63 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -321,6 +321,16 @@ namespace lexertl
             }
         }
 
+        // bol_token(), eol_token() and null_token() have no entry
+        // in set_mapping_.
+        static bool in_set(observer_ptr<const node> node_, const id_type id_,
+            const index_set_vector& set_mapping_)
+        {
+            return node_->token() < set_mapping_.size() &&
+                set_mapping_[node_->token()].find(id_) !=
+                set_mapping_[node_->token()].end();
+        }
+
         static void prune_NL(typename node_vector::iterator& iter_,
             typename node_vector::iterator& end_,
             node_vector& followpos_,
@@ -342,9 +352,7 @@ namespace lexertl
                     continue;
                 }
 
-                if (const auto& cr_set_ =
-                    set_mapping_[node_->token()];
-                    cr_set_.find(cr_id_) != cr_set_.end())
+                if (in_set(node_, cr_id_, set_mapping_))
                 {
                     const auto& cr_followpos_ =
                         node_->followpos();
@@ -354,9 +362,7 @@ namespace lexertl
                         if (cr_node_->end_state())
                             continue;
 
-                        if (const auto& nl_set_ =
-                            set_mapping_[cr_node_->token()];
-                            nl_set_.find(nl_id_) != nl_set_.end())
+                        if (in_set(cr_node_, nl_id_, set_mapping_))
                         {
                             const auto& nl_followpos_ =
                                 cr_node_->followpos();
@@ -385,9 +391,7 @@ namespace lexertl
                 if (nl_iter_ == end_)
                     break;
 
-                if (const auto& nl_set_ =
-                    set_mapping_[node_->token()];
-                    nl_set_.find(nl_id_) != nl_set_.end())
+                if (in_set(node_, nl_id_, set_mapping_))
                 {
                     const auto& nl_followpos_ =
                         node_->followpos();
@@ -422,9 +426,9 @@ namespace lexertl
             const index_set_vector& set_mapping_)
         {
             auto node_ = *iter_;
-            const auto& set_ = set_mapping_[node_->token()];
+            const bool nl_start_ = in_set(node_, nl_id_, set_mapping_);
 
-            if (set_.find(cr_id_) != set_.end())
+            if (in_set(node_, cr_id_, set_mapping_))
             {
                 const auto& cr_followpos_ = node_->followpos();
                 bool found_ = false;
@@ -434,9 +438,7 @@ namespace lexertl
                     if (cr_node_->end_state())
                         continue;
 
-                    const auto& cr_set_ = set_mapping_[cr_node_->token()];
-
-                    if (cr_set_.find(nl_id_) != cr_set_.end())
+                    if (in_set(cr_node_, nl_id_, set_mapping_))
                     {
                         const auto& nl_followpos_ = cr_node_->followpos();
 
@@ -476,7 +478,7 @@ namespace lexertl
                 }
             }
 
-            if (set_.find(nl_id_) != set_.end())
+            if (nl_start_)
             {
                 const auto& nl_followpos_ = node_->followpos();
                 bool found_ = false;
-- 
2.43.0


From e61eb8006129df7d44945876e8a38d804120b564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:56 +0000
Subject: [PATCH 10/22] fix: erase a clashing newline position only once

---
 include/lexertl/generator.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 3f35a63..3e56d9c 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -356,6 +356,7 @@ namespace lexertl
                 {
                     const auto& cr_followpos_ =
                         node_->followpos();
+                    bool erase_ = false;
 
                     for (auto cr_node_ : cr_followpos_)
                     {
@@ -378,18 +379,21 @@ namespace lexertl
 
                             if (found_)
                             {
-                                // This might be suppressing additional paths
-                                // but we should be erroring out anyway.
-                                nl_iter_ = followpos_.erase(nl_iter_);
-                                end_ = followpos_.end();
-                                continue;
+                                erase_ = true;
+                                break;
                             }
                         }
                     }
-                }
 
-                if (nl_iter_ == end_)
-                    break;
+                    if (erase_)
+                    {
+                        // This might be suppressing additional paths
+                        // but we should be erroring out anyway.
+                        nl_iter_ = followpos_.erase(nl_iter_);
+                        end_ = followpos_.end();
+                        continue;
+                    }
+                }
 
                 if (in_set(node_, nl_id_, set_mapping_))
                 {
-- 
2.43.0


From aa405ff816505fda17b78824693ac02c2b0a8471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:34 +0000
Subject: [PATCH 11/22] fix: a macro that fails to tokenise is not defined

---
 include/lexertl/rules.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index b0a5749..75d286c 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -251,12 +251,11 @@ namespace lexertl
 
             if (iter_ == _macro_map.end())
             {
-                auto pair_ =
-                    _macro_map.insert(macro_pair(name_, token_vector()));
                 auto tokens_vec_ = tokenise(regex_, npos(), name_);
 
                 // There can only be one token_vector for a macro
-                pair_.first->second = std::move(tokens_vec_.back());
+                _macro_map.insert(macro_pair(name_,
+                    std::move(tokens_vec_.back())));
             }
             else
             {
-- 
2.43.0


From 05bc336a6c3dd8a4258d473af3273d1b0ef0b1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:20 +0000
Subject: [PATCH 12/22] fix: a duplicated repeat operator is a syntax error

---
 include/lexertl/parser/tokeniser/re_token.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_token.hpp b/include/lexertl/parser/tokeniser/re_token.hpp
index 53a208b..deacf28 100644
--- a/include/lexertl/parser/tokeniser/re_token.hpp
+++ b/include/lexertl/parser/tokeniser/re_token.hpp
@@ -76,13 +76,13 @@ namespace lexertl::detail
                 /*MACRO*/  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>',
                 /*  (  */  ' ', '=', '<', '<', '<', '<', '<', ' ', ' ', '<', '<', '<', '<', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ',
                 /*  )  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>',
-                /*  ?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /*  ?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* ??  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
-                /*  *  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /*  *  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* *?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
-                /*  +  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /*  +  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* +?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
-                /* n,m */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /* n,m */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* n,m?*/  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* END */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' '
             };
-- 
2.43.0


From 37507c2a34d0a59ddb74e7cc51151b2d30924186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:20 +0000
Subject: [PATCH 13/22] fix: $ always registers the zero byte of wide newlines

---
 include/lexertl/parser/parser.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index 4b07047..b121d07 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -407,6 +407,10 @@ namespace lexertl::detail
             const id_type temp_cr_id_ = lookup(cr_);
             const id_type temp_nl_id_ = lookup(nl_);
 
+            // The generator needs the zero byte for wide \r and \n
+            if (sm_traits::compressed)
+                lookup(string_token(0, 0));
+
             assert(handle_.top()->_type == token_type::EOL &&
                 handle_.size() == 1);
 
-- 
2.43.0


From 89a87b4f1ca6d2e7d076dd79ac6c979b7f7954a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:21 +0000
Subject: [PATCH 14/22] fix: find the wide newline states of every end of line
 state

---
 include/lexertl/generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 3e56d9c..fa7718b 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -658,7 +658,7 @@ namespace lexertl
                 id_type cr_state_ = 0;
                 id_type nl_state_ = 0;
 
-                for (; i_ < (sm_traits::char_24_bit ? 2 : 1); ++i_)
+                for (i_ = 0; i_ < (sm_traits::char_24_bit ? 2 : 1); ++i_)
                 {
                     ptr_ = &dfa_.front() +
                         ptr_[*state_index::transitions + zero_id_] *
-- 
2.43.0


From b3180f7cf3fbb8f9388d89542791d8a1d4756f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 15/22] fix: minimising a character state machine keeps ids and
 push/pop data

---
 include/lexertl/state_machine.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/state_machine.hpp b/include/lexertl/state_machine.hpp
index 1c1ffa5..c8d0db5 100644
--- a/include/lexertl/state_machine.hpp
+++ b/include/lexertl/state_machine.hpp
@@ -473,8 +473,10 @@ namespace lexertl
                     }
 
                     new_ptr_->_end_state = ptr_->_end_state;
-                    new_ptr_->_id = ptr_->_end_state;
+                    new_ptr_->_push_pop_dfa = ptr_->_push_pop_dfa;
+                    new_ptr_->_id = ptr_->_id;
                     new_ptr_->_user_id = ptr_->_user_id;
+                    new_ptr_->_push_dfa = ptr_->_push_dfa;
                     new_ptr_->_next_dfa = ptr_->_next_dfa;
 
                     if (ptr_->_eol_index != npos())
-- 
2.43.0


From 469a63ac2fdc13f8ef0de2e6e28cf302a2c78ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 16/22] fix: ^ in the first alternative must not disable the
 others at a line start

---
 include/lexertl/generator.hpp     | 4 +++-
 include/lexertl/parser/parser.hpp | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index fa7718b..67c730a 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -528,7 +528,9 @@ namespace lexertl
             {
                 if (i_ == parser::bol_token())
                 {
-                    dfa_.front() = transition_;
+                    // Only the start state has a BOL transition
+                    if (index_ == 0)
+                        dfa_.front() = transition_;
                 }
                 else if (i_ == parser::eol_token())
                 {
diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index b121d07..7ece9ac 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -939,14 +939,15 @@ namespace lexertl::detail
         void fixup_bol(observer_ptr<node>& root_)const
         {
             const auto& first_ = root_->firstpos();
-            bool found_ = false;
+            bool found_ = true;
 
+            // Only skip if every alternative starts with ^
             for (observer_ptr<const node> node_ : first_)
             {
                 found_ = !node_->end_state() && node_->token() ==
                     bol_token();
 
-                if (found_) break;
+                if (!found_) break;
             }
 
             if (!found_)
-- 
2.43.0


From ac15f785b644e4a12ed0739923e808087e24de45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 17/22] fix: a split rule for a named state keeps its ^

---
 include/lexertl/rules.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index 75d286c..aa6cb2c 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -1201,7 +1201,7 @@ namespace lexertl
 
                 narrow(regex_.c_str(), ss_);
 
-                if (tokens_vec_.back()[1]._type == detail::token_type::BOL)
+                if (tokens_vec_.front()[1]._type == detail::token_type::BOL)
                 {
                     _features[curr_] |= *feature_bit::bol;
                 }
-- 
2.43.0


From 91a2d976c6d0647267fb3453bc43ac496c1b0029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 18/22] fix: a start state that does not fit the id type is not
 added

---
 include/lexertl/rules.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index aa6cb2c..8cdaea7 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -197,6 +197,14 @@ namespace lexertl
         {
             validate(name_);
 
+            if (_statemap.size() >= npos() &&
+                _statemap.find(name_) == _statemap.end())
+            {
+                // Overflow
+                throw runtime_error("The id_type you have chosen cannot hold "
+                    "this many lexer start states.");
+            }
+
             if (_statemap.insert(string_id_type_pair(name_,
                 static_cast<id_type>(_statemap.size()))).second)
             {
@@ -219,13 +227,6 @@ namespace lexertl
                 return _statemap.find(name_)->second;
             }
 
-            if (_next_dfas.size() > npos())
-            {
-                // Overflow
-                throw runtime_error("The id_type you have chosen cannot hold "
-                    "this many lexer start states.");
-            }
-
             // Initial is not stored, so no need to - 1.
             return static_cast<id_type>(_lexer_state_names.size());
         }
-- 
2.43.0


From bcfa2d87947b9f8205d6697291bba76f3dfb24c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 19/22] fix: stream_shared_iterator must not memcpy overlapping
 ranges

---
 include/lexertl/stream_shared_iterator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/stream_shared_iterator.hpp b/include/lexertl/stream_shared_iterator.hpp
index b91e5d5..b5adaf9 100644
--- a/include/lexertl/stream_shared_iterator.hpp
+++ b/include/lexertl/stream_shared_iterator.hpp
@@ -199,12 +199,13 @@ namespace lexertl
                 }
                 else
                 {
-                    // Some systems have memcpy in namespace std
+                    // Some systems have memmove in namespace std
                     using namespace std;
                     const size_t start_ = _buffer.size() - lowest_;
                     const size_t len_ = _buffer.size() - start_;
 
-                    memcpy(&_buffer.front(), &_buffer[lowest_], start_ *
+                    // The ranges can overlap
+                    memmove(_buffer.data(), _buffer.data() + lowest_, start_ *
                         sizeof(char_type));
                     _stream.read(&_buffer.front() + start_, len_);
                     read_ = static_cast<size_t>(_stream.gcount());
-- 
2.43.0


From e95d0b6bacf819c65a76fba0372fb631807b55db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 20/22] fix: stream_shared_iterator of an empty stream is the
 end iterator

---
 include/lexertl/stream_shared_iterator.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/stream_shared_iterator.hpp b/include/lexertl/stream_shared_iterator.hpp
index b5adaf9..ee533cf 100644
--- a/include/lexertl/stream_shared_iterator.hpp
+++ b/include/lexertl/stream_shared_iterator.hpp
@@ -40,7 +40,7 @@ namespace lexertl
         }
 
         basic_stream_shared_iterator(const basic_stream_shared_iterator& rhs_) :
-            _index(rhs_._master ? rhs_._shared->lowest() : rhs_._index),
+            _index(rhs_._master ? rhs_._shared->start() : rhs_._index),
             _shared(rhs_._shared)
         {
             if (_shared)
@@ -76,7 +76,7 @@ namespace lexertl
             if (this != &rhs_)
             {
                 _master = false;
-                _index = rhs_._master ? rhs_._shared->lowest() : rhs_._index;
+                _index = rhs_._master ? rhs_._shared->start() : rhs_._index;
 
                 if (!_live && !rhs_._live)
                 {
@@ -257,6 +257,12 @@ namespace lexertl
                 return lowest_;
             }
 
+            // Where a new iterator starts (an empty stream starts at its end)
+            std::size_t start() const
+            {
+                return _len == 0 ? npos() : lowest();
+            }
+
             std::size_t highest() const
             {
                 std::size_t highest_ = 0;
@@ -315,7 +321,7 @@ namespace lexertl
             {
                 _master = false;
                 _live = true;
-                _index = _shared->lowest();
+                _index = _shared->start();
             }
         }
 
-- 
2.43.0


From f5c8676baff1d59579b1ca3f40749e6a44102d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 21/22] fix: assigning a stream_shared_iterator keeps its
 clients and references

---
 include/lexertl/stream_shared_iterator.hpp | 34 +++++++++-------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/include/lexertl/stream_shared_iterator.hpp b/include/lexertl/stream_shared_iterator.hpp
index ee533cf..d9f16df 100644
--- a/include/lexertl/stream_shared_iterator.hpp
+++ b/include/lexertl/stream_shared_iterator.hpp
@@ -78,34 +78,26 @@ namespace lexertl
                 _master = false;
                 _index = rhs_._master ? rhs_._shared->start() : rhs_._index;
 
-                if (!_live && !rhs_._live)
-                {
-                    if (rhs_._shared)
-                    {
-                        ++rhs_._shared->_ref_count;
-                    }
-                }
-                else if (!_live && rhs_._live)
-                {
-                    rhs_._shared->_clients.push_back(this);
+                // A copy of a start iterator must follow the buffer
+                const bool live_ = rhs_._master || rhs_._live;
 
-                    if (!_shared)
-                    {
-                        ++rhs_._shared->_ref_count;
-                    }
-                }
-                else if (_live && !rhs_._live)
+                // First, as both can use the same stream
+                if (rhs_._shared)
+                    ++rhs_._shared->_ref_count;
+
+                if (_shared)
                 {
                     _shared->erase(this);
 
-                    if (!rhs_._shared)
-                    {
-                        --_shared->_ref_count;
-                    }
+                    if (--_shared->_ref_count == 0)
+                        delete _shared;
                 }
 
-                _live = rhs_._live;
+                _live = live_;
                 _shared = rhs_._shared;
+
+                if (_live)
+                    _shared->_clients.push_back(this);
             }
 
             return *this;
-- 
2.43.0


From 1c426d3c979755628d38145b5b131da358f26e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 22/22] fix: fold pairs of adjacent upper and lower case
 letters

---
 .../parser/tokeniser/re_tokeniser_helper.hpp    | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
index 9d93963..bee73b7 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
@@ -267,14 +267,15 @@ namespace lexertl::detail
                     }
                     else
                     {
-                        const index_type first_ = ptr_->to.second +
+                        // Characters are mapped in reverse order
+                        const index_type second_ = ptr_->to.first -
                             (range_.first - ptr_->from.first);
 
-                        out_.insert(range(first_,
-                            range_.second > ptr_->from.second ?
-                            ptr_->to.first :
-                            static_cast<index_type>(ptr_->to.second +
-                                (range_.second - ptr_->from.first))));
+                        out_.insert(range(range_.second > ptr_->from.second ?
+                            ptr_->to.second :
+                            static_cast<index_type>(ptr_->to.first -
+                                (range_.second - ptr_->from.first)),
+                            second_));
                     }
                 }
                 else if (range_.second >= ptr_->from.first &&
@@ -289,10 +290,10 @@ namespace lexertl::detail
                     }
                     else
                     {
-                        const index_type second_ = ptr_->to.second +
+                        const index_type first_ = ptr_->to.first -
                             (range_.second - ptr_->from.first);
 
-                        out_.insert(range(ptr_->to.second, second_));
+                        out_.insert(range(first_, ptr_->to.first));
                     }
                 }
                 // Either range fully encompasses from range or not at all.
-- 
2.43.0

